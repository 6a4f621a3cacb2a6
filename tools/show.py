"""debug: print a body's MIR facts:  show.py <canonical path substring>"""
import sys, json
import prog
P = prog.program()
def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*": s = "(*%s)" % s
        elif e[0] == "f": s += ".%s" % (e[2] if len(e) > 2 and e[2] else e[1])
        elif e[0] == "d": s = "(%s as %s)" % (s, e[2])
        else: s += str(e)
    return s
def op(o):
    if o["k"] != "c": return ("" if o["k"] == "y" else "move ") + pl(o["p"])
    if "f" in o: return o["f"]["fn"] + "<" + ",".join(o["f"]["args"]) + ">" + (" => " + o["f"]["r"][1] if "r" in o["f"] and o["f"]["r"][1] != o["f"]["fn"] else "")
    return json.dumps({k: v for k, v in o.items() if k != "k"})
def rv(v):
    r = v["r"]
    if r == "use": return op(v["o"])
    if r == "ref": return "&" + ("mut " if v["mut"] else "") + pl(v["p"])
    if r == "agg": return "%s%s(%s)" % (v["agg"], " " + v.get("adt", v.get("closure", "")) + "::" + v.get("variant", "") if v["agg"] in ("adt", "closure") else "", ", ".join(op(x) for x in v["fs"]))
    if r == "discr": return "discr(%s)" % pl(v["p"])
    if r == "bin": return "%s %s %s" % (op(v["a"]), v["op"], op(v["b"]))
    if r == "cast": return "%s as %s [%s]" % (op(v["o"]), v["ty"], v["ck"])
    return json.dumps(v)
def show(b):
    print("fn", b.path, b.kind, b.file, b.line, "gen", b.gen, "nargs", b.nargs)
    for i, t in enumerate(b.locals): print("   _%d: %s %s" % (i, t, b.name_of(i) or ""))
    for i, bl in enumerate(b.blocks):
        if bl["c"]: continue
        print(" bb%d:" % i)
        for s in bl["s"]: print("    %s = %s" % (pl(s["p"]), rv(s["v"])))
        t = bl["t"]
        k = t["t"]
        if k == "call": print("    %s = %s(%s) -> %s   L%s" % (pl(t["p"]), op(t["f"]), ", ".join(op(a) for a in t["a"]), t["to"], t["l"]))
        elif k == "switch": print("    switch %s %s else %s" % (op(t["d"]), t["to"], t["else"]))
        elif k == "assert": print("    assert %s %s %s -> %s" % (t["kind"], op(t["cond"]), t["exp"], t["to"]))
        else: print("   ", k, t.get("to", ""))
    for p in b.promoted: show(p)
for b in list(P.bodies.values()):
    if sys.argv[1] in b.path: show(b)
