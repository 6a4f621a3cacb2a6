"""Every analysis honours the language version it was created for."""
import re

from rules import conform
from rules.p06 import owners

LEVEL = "other"
EXPLANATION = (
    "Dataflow over every workspace body: each value of type Version that is passed to a call, stored in a field or captured "
    "by a closure is traced back; it must originate in the function's own version parameter, a captured version or a version "
    "field, or in a function that returns one.  A constant version may only originate where a version is determined "
    "(manifest detection, its default, project creation).  Comparisons with constants are allowed anywhere; the decision "
    "tables of all functions that take a version or determine one must be the confirmed ones wherever the difference involves "
    "the version.")
ASSUMPTIONS = []
VER = re.compile(r"^&*(?:'\w+ )?(?:mut )?(?:\w+::)*Version$")
CONFIRMED = ("ink_lsp_server::dispatch::Dispatcher::process_changes", "ink_lsp_server::dispatch::InkProjectVersion::guess_version",
             "ink_lsp_server::dispatch::handlers::command::handle_create_project")
DETECT = ["dispatch::parse_ink_project_version", "InkProjectVersion", "dispatch::is_v5_version_string",
          "dispatch::Dispatcher::process_changes", "dispatch::Snapshot::new", "memory::", "Analysis::new", "migrate_project",
          "handlers::command::handle_create_project", "find_cargo_toml"]


def is_ver(ty):
    return bool(VER.match(ty))


def const_version(o):
    """constant version operand"""
    return o.get("k") == "c" and is_ver(o.get("ty", "")) and "f" not in o


def consts_in(b):
    """locals of Version type that may hold a constant: flow-insensitive propagation of constants through copies and refs"""
    hot = {}
    for blk in b.blocks:
        for s in blk["s"]:
            v = s["v"]
            if v["r"] == "agg" and v.get("agg") == "adt" and v["adt"].endswith("::Version"):
                hot[s["p"][0]] = v["variant"]
    ch = True
    while ch:
        ch = False
        for blk in b.blocks:
            for s in blk["s"]:
                v = s["v"]
                src = None
                if v["r"] in ("use", "cast"):
                    o = v["o"]
                    if const_version(o) and s["p"][0] not in hot and len(s["p"]) == 1:
                        hot[s["p"][0]] = str(o.get("v"))
                        ch = True
                        continue
                    if o.get("k") != "c":
                        src = o["p"][0]
                elif v["r"] in ("ref", "copyref"):
                    src = v["p"][0]
                if src in hot and s["p"][0] not in hot and len(s["p"]) == 1:
                    hot[s["p"][0]] = hot[src]
                    ch = True
    return hot


CMP = re.compile(r"PartialEq|PartialOrd|cmp::|fmt::|assert")


def run(P, ctx):
    ctx.rule("version-flow", "no constant version is passed to a call, stored or captured outside version detection")
    c = conform.conformance(P)
    n = 0
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        hot = consts_in(b)
        bad = None
        for blk in b.blocks:
            if blk["c"]:
                continue
            t = blk["t"]
            if t["t"] == "call":
                f = t["f"].get("f")
                nm = (f["r"][1] if "r" in f else f["fn"]) if f else "(indirect)"
                for o in t["a"]:
                    ty = o.get("ty") if o.get("k") == "c" else (b.locals[o["p"][0]] if len(o["p"]) == 1 else "")
                    if not ty or not is_ver(ty):
                        continue
                    n += 1
                    if (const_version(o) or (o.get("k") != "c" and o["p"][0] in hot)) and not CMP.search(nm):
                        bad = ("passes a fixed version to %s" % nm, t["l"])
            for s in blk["s"]:
                v = s["v"]
                if v["r"] == "agg":
                    if v.get("agg") == "adt" and v["adt"].endswith("::Version"):
                        continue
                    for o in v["fs"]:
                        if const_version(o) or (o.get("k") != "c" and len(o["p"]) == 1 and o["p"][0] in hot
                                                and is_ver(b.locals[o["p"][0]])):
                            bad = ("stores a fixed version", s["l"])
                if len(s["p"]) > 1 and v["r"] == "use" and (const_version(v["o"]) or (
                        v["o"].get("k") != "c" and v["o"]["p"][0] in hot and len(v["o"]["p"]) == 1)):
                    bad = ("overwrites a version with a fixed one", s["l"])
        if b.locals and is_ver(b.locals[0]) and (0 in hot):
            bad = ("returns a fixed version", None)
        if bad is None:
            ctx.ok("version-flow")
            continue
        ow = owners(c, b)
        if ow and all(k[1] in CONFIRMED for k in ow):
            ctx.ok("version-flow", 1, "%s: confirmed" % b.path)
            continue
        ctx.bad("version-flow", b.path, "%s (%s) %s" % (b.path, b.where(bad[1]), bad[0]))
    ctx.count("version arguments", n)
    ctx.floor("version-flow", "version arguments", n, 150)
    keys = set(conform.region(c, fns=DETECT))
    vf = set()
    for k, b in c.R.fns.items():
        if k[0].startswith("ink_analyzer_macro") or k[1].endswith("core::fmt::Debug>::fmt"):
            continue
        if any(is_ver(t) for t in b.locals[1:b.nargs + 1]) or any(
                is_ver(t) for x in [b] + c.R.kids.get(b.id, []) for t in x.locals):
            vf.add(k)
    ctx.count("functions that handle a version", len(vf))

    def keep(k, r):
        return k in keys or r["kind"] != "differs" or re.search(r"-> V[45]\b|[vV]ersion", r["text"]) is not None

    conform.check(P, ctx, keys | vf, rule="version-decisions", text="functions that take or determine a version decide by it "
                  "as confirmed", keep=keep)
