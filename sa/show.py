"""python3 -m sa.show <substring>: print dumped MIR."""
import sys
from .prog import Prog


def pl(p):
    s = "_%d" % p[0]
    for e in p[1:]:
        if e == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s += " as v%d" % e[1]
        else:
            s += str(e)
    return s


def op(o, P):
    if "cp" in o:
        return pl(o["cp"])
    if "mv" in o:
        return "move " + pl(o["mv"])
    if "k" in o:
        k = o["k"]
        if "fn" in k:
            return "fn " + k["fn"].get("key", k["fn"]["path"])
        return "const %s %s" % (P.types[k["ty"]]["s"], str(k.get("c"))[:60])
    return str(o)


def rv(r, P):
    k = r[0]
    if k == "use":
        return op(r[1], P)
    if k in ("ref", "rawptr"):
        return "&%s %s" % (r[1], pl(r[2]))
    if k == "cast":
        return "%s as %s (%s)" % (op(r[2], P), P.types[r[4]]["s"], r[1])
    if k == "bin":
        return "%s(%s, %s)" % (r[1], op(r[2], P), op(r[3], P))
    if k == "un":
        return "%s(%s)" % (r[1], op(r[2], P))
    if k == "discr":
        return "discr(%s)" % pl(r[1])
    if k == "agg":
        h = r[1]
        return "%s{%s}" % (P.types[h[1]]["s"] + "#%d" % h[2] if h[0] == "adt" else h, ", ".join(op(o, P) for o in r[2]))
    return str(r)


def show(P, key):
    f = P.fns[key]
    print("fn", key, f["span"])
    for i, l in enumerate(f["locals"]):
        print("   _%d: %s %s" % (i, P.types[l[0]]["s"], l[1] or ""))
    for i, b in enumerate(f["blocks"]):
        if b["c"]:
            continue
        print(" bb%d:" % i)
        for s in b["s"]:
            if s[0] == "=":
                print("    %s = %s  @%s" % (pl(s[1]), rv(s[2], P), s[3]))
            elif s[0] not in ("live", "dead"):
                print("   ", s)
        t = b["t"]
        if isinstance(t, dict):
            c = t["call"]
            print("    %s = CALL %s(%s) -> bb%s @%s %s" % (pl(t["d"]), c.get("key") or c.get("path") or op(c["ptr"], P), ", ".join(op(o, P) for o in t["a"]), t["t"], t["ln"], {k: c[k] for k in ("unresolved", "virtual", "shim", "intrinsic") if k in c}))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (op(t[1], P), t[2], t[3]))
        elif t[0] == "assert":
            print("    assert %s==%s %s -> bb%s" % (op(t[1], P), t[2], t[3], t[4]))
        elif t[0] == "drop":
            print("    drop %s -> bb%s needs=%s" % (pl(t[1]), t[2], t[5]))
        else:
            print("   ", t)


if __name__ == "__main__":
    P = Prog()
    for k in P.fns:
        if sys.argv[1] in k and (len(sys.argv) < 3 or P.fns[k]["local"]):
            show(P, k)
