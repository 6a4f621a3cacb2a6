"""The server never modifies the client's files or machine by itself: effect analysis over the whole call graph."""
from rules import conform

LEVEL = "other"
EXPLANATION = (
    "Effect analysis: every call site of every workspace function (library, server and binary; generic callees resolved by "
    "the compiler, function items passed as values included) is classified by the resolved callee.  File writes, renames, "
    "deletions, directory creation, permission changes, processes, sockets, environment changes, foreign functions and "
    "inline assembly must not occur; file reads must be of a path ending in Cargo.toml; no dependency crate outside the "
    "confirmed list is called at all.")
ASSUMPTIONS = ["the dependency crates called by the workspace have no such effects of their own (they are parsers, data "
               "types and in-memory channels), apart from the stdio transport of lsp-server"]
READ_OK = ("std::fs::read_to_string", "std::fs::read", "std::fs::metadata", "std::fs::exists", "std::fs::canonicalize",
           "std::fs::File::open", "std::fs::symlink_metadata", "std::fs::Metadata", "std::fs::read_dir", "std::fs::FileType",
           "std::fs::DirEntry::path", "std::fs::DirEntry::file_name")
READS = ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open", "std::fs::read_dir")
BAD = ("std::fs::", "std::process::", "std::net::", "std::os::", "std::env::set_", "std::env::remove_", "std::sys::",
       "libc::", "nix::", "rustix::", "std::thread::Builder", "tempfile::", "mio::", "tokio::")
PATH_BAD = ()
CRATES_OK = ("core", "alloc", "std")


def callee_names(f):
    n = []
    if "r" in f:
        n.append(f["r"][1])
    n.append(f["fn"])
    return n


def sites(P):
    """every mention of an external function: calls and function items"""
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for blk in P.all_blocks(b):
            if blk["c"]:
                continue
            ops = []
            for s in blk["s"]:
                ops += [(o, s["l"]) for o in ops_of(s["v"])]
            t = blk["t"]
            if t["t"] == "call":
                ops += [(o, t["l"]) for o in [t["f"]] + t["a"]]
            for o, l in ops:
                if o.get("k") == "c" and "f" in o:
                    yield b, o["f"], l, (t if t["t"] == "call" and o is t["f"] else None)


def ops_of(v):
    import prog
    return prog.operands_of_rvalue(v)


def crate_of(n):
    n = n.lstrip("<&")
    return n.split("::")[0].split("<")[0].split(" ")[0]


def run(P, ctx):
    ctx.rule("no-effect", "no reachable call site writes files, starts processes, opens sockets or changes the environment")
    ctx.rule("known-crates", "only the confirmed dependency crates are called")
    ctx.rule("reads", "files are read only through a path whose last component was set to Cargo.toml")
    ctx.rule("no-ffi", "no foreign function, inline assembly or raw system call")
    ref = conform.conformance(P).R.P
    known = {crate_of(x) for b, f, l, t in sites(ref) for x in callee_names(f)} | set(CRATES_OK)
    n = reads = 0
    for b, f, l, t in sites(P):
        n += 1
        names = callee_names(f)
        hit = [x for x in names if x.startswith(BAD) and not x.startswith(READ_OK)]
        if hit:
            ctx.bad("no-effect", "%s:%s" % (b.path, hit[0]), "%s (%s) calls %s" % (b.path, b.where(l), hit[0]))
        elif any(("fs::" in x and "OpenOptions" in x) for x in names):
            ctx.bad("no-effect", "%s:OpenOptions" % b.path, "%s (%s) opens a file with explicit options" % (b.path, b.where(l)))
        else:
            ctx.ok("no-effect")
        cr = crate_of(names[0])
        if cr in known or cr.startswith(("ink_", "{", "(", "[", "dyn", "impl")) or len(cr) <= 1:
            ctx.ok("known-crates")
        else:
            ctx.bad("known-crates", "%s:%s" % (b.path, cr), "%s (%s) calls into crate %s, which is not a confirmed "
                    "dependency (%s)" % (b.path, b.where(l), cr, names[0]))
        if any(x.startswith(READS) for x in names):
            reads += 1
            check_read(P, ctx, b, f, l, t)
    for unit, u in P.unsafe_blocks:
        if unit.startswith("ink_analyzer_macro"):
            continue
        ctx.bad("no-ffi", "unsafe:%s" % (u if isinstance(u, str) else u.get("fn", u)), "unsafe block in %s: %s" % (unit, u))
    ctx.ok("no-ffi")
    ctx.count("call sites and function references classified", n)
    ctx.count("file read sites", reads)
    ctx.floor("no-effect", "call sites", n, 5000)
    ctx.floor("reads", "file reads", reads, 1)


def check_read(P, ctx, b, f, l, t):
    """the path argument must come from a value whose file name was set to Cargo.toml"""
    if t is None:
        ctx.bad("reads", b.path + ":fn-item", "%s passes a file-reading function as a value" % b.path)
        return
    ok, why = cargo_path(P, b, t["a"][0], set(), 0)
    if ok:
        ctx.ok("reads", 1, "%s reads %s" % (b.path, why))
    else:
        ctx.bad("reads", b.path, "%s (%s) reads a file whose path is not known to be a Cargo.toml: %s" % (
            b.path, b.where(l), why))


def cargo_path(P, b, o, seen, depth):
    """does operand o of body b derive only from Cargo.toml paths?"""
    if depth > 40:
        return False, "too deep"
    if o.get("k") == "c":
        s = str(o.get("v"))
        return ("Cargo.toml" in s), s[:80]
    loc = o["p"][0] if isinstance(o.get("p"), list) else o.get("l")
    if (b.id, loc) in seen:
        return True, "(cycle)"
    seen = seen | {(b.id, loc)}
    # file-name setters on this local
    if sets_name(P, b, loc):
        return True, "a path with its file name set to Cargo.toml"
    defs = defs_of(b, loc)
    if not defs and 1 <= loc <= b.nargs:
        callers = []
        for c in P.bodies.values():
            for _, t, f in c.calls():
                if f and b.id in P.callees(f):
                    callers.append((c, t))
        if b.kind == "closure" or not callers:
            return False, "parameter %d of %s" % (loc, b.path)
        for c, t in callers:
            r = cargo_path(P, c, t["a"][loc - 1], seen, depth + 1)
            if not r[0]:
                return r
        return True, "a path given by %d caller(s)" % len(callers)
    if not defs:
        return False, "undefined"
    for d in defs:
        if d[0] == "s":
            srcs = [x for x in rv_ops(d[1]) if x.get("k") != "c"] or rv_ops(d[1])
            rs = [cargo_path(P, b, x, seen, depth + 1) for x in srcs]
        else:
            t = d[1]
            f = t["f"].get("f")
            nm = callee_names(f)[0] if f else "?"
            w = [x for x in (P.callees(f) if f else [])]
            if w:
                rs = [(all(returns_cargo(P, x, set()) for x in w), nm)]
            elif f and any(x in P.bodies and returns_cargo(P, x, set()) for x in mentions(f, t)):
                rs = [(True, nm)]
            elif nm.endswith(("PathBuf::join", "Path::join")):
                rs = [cargo_path(P, b, t["a"][1], seen, depth + 1)]
            elif any(a.get("k") == "c" and "Cargo.toml" in str(a.get("v")) for a in t["a"]):
                rs = [(True, nm)]
            else:
                rs = [cargo_path(P, b, a, seen, depth + 1) for a in t["a"][:1]]
        for r in rs:
            if not r[0]:
                return r
        if not rs:
            return False, "opaque"
    return True, "derived from " + str(rs[0][1])


def mentions(f, t):
    out = list(f.get("cl", []))
    for a in t["a"]:
        if a.get("k") == "c" and "f" in a:
            out.append(a["f"].get("id"))
            if "r" in a["f"]:
                out.append(a["f"]["r"][2] if len(a["f"]["r"]) > 2 else None)
        if a.get("closure"):
            out.append(a["closure"])
    return [x for x in out if x]


def rv_ops(v):
    if v["r"] in ("ref", "addr", "discr", "len", "copyref", "rawptr"):
        p = v.get("p")
        return [{"k": "p", "p": p}] if p else []
    return ops_of(v)


def defs_of(b, loc):
    out = []
    for blk in b.blocks:
        if blk["c"]:
            continue
        for s in blk["s"]:
            p = s["p"]
            if p[0] == loc:
                out.append(("s", s["v"]))
        t = blk["t"]
        if t["t"] == "call" and t["p"][0] == loc:
            out.append(("c", t))
    return out


def alias_of(b, loc):
    """locals that are mutable/shared references to loc"""
    r = set()
    for blk in b.blocks:
        for s in blk["s"]:
            if s["v"]["r"] in ("ref", "addr", "rawptr") and s["v"].get("p") and s["v"]["p"][0] == loc:
                r.add(s["p"][0])
    return r


def sets_name(P, b, loc):
    al = alias_of(b, loc) | {loc}
    for _, t, f in b.calls():
        if f and callee_names(f)[0].endswith(("PathBuf::set_file_name", "PathBuf::push")) and t["a"]:
            a0 = t["a"][0]
            if a0.get("k") != "c" and a0["p"][0] in al and "Cargo.toml" in str(t["a"][1]):
                return True
    return False


def returns_cargo(P, i, seen):
    """the function returns only paths whose file name it sets to Cargo.toml"""
    if i in seen:
        return True
    b = P.bodies.get(i)
    if b is None:
        return False
    for loc in range(len(b.locals)):
        if "PathBuf" in b.locals[loc] and sets_name(P, b, loc):
            return True
    r = cargo_path(P, b, {"k": "p", "p": [0]}, set(), 0)
    return r[0]
