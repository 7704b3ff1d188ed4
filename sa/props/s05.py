"""Alignment taint.  Every pointer whose pointee type needs a larger alignment than the memory it was made from guarantees (a byte
buffer or arena pointer cast or transmuted to a wider type) is tainted, through copies, pointer arithmetic, struct fields,
parameters and results of the whole crate.  A tainted pointer may only be accessed with the unaligned operations.  Requests for
aligned memory must let the requested alignment influence every address they return."""
import re
from .. import q
from ..q import op_place

ARITH = re.compile(r"::(offset|add|sub|wrapping_add|wrapping_sub|wrapping_offset|byte_add|byte_sub|byte_offset|cast|cast_mut|cast_const|as_ptr|as_mut_ptr|new_unchecked|new|unwrap|unwrap_unchecked|expect|from|into|clone|as_non_null_ptr|deref|deref_mut|as_ref|as_mut|get|map|branch)$")
UNALIGNED = re.compile(r"::(read_unaligned|write_unaligned)$")
TYPED = re.compile(r"(ptr::(read|write|copy|copy_nonoverlapping|swap|replace|drop_in_place|read_volatile|write_volatile|swap_nonoverlapping|write_bytes)|ptr_impl.*|const_ptr::.*::(read|copy_to\w*|read_volatile|as_ref)|mut_ptr::.*::(read|write|copy_to\w*|copy_from\w*|replace|swap|drop_in_place|as_ref|as_mut|read_volatile|write_volatile)|NonNull::<T>::(read|write|as_ref|as_mut|copy_to\w*|copy_from\w*|replace|swap)|from_raw_parts(_mut)?|Box::<T>::from_raw|from_raw|slice_from_ref|from_ref|intrinsics::(read_via_copy|write_via_move|copy|copy_nonoverlapping))$")
ALLOC = re.compile(r"(alloc::(alloc|alloc_zeroed|realloc)|GlobalAlloc>?::\w+|Global>?::\w+|exchange_malloc)$")
LAYOUT = re.compile(r"Layout::(new|array|for_value)$")


class A:
    def __init__(self, P):
        self.P = P

    def align(self, ti):
        t = self.P.types[ti]
        k = t["k"]
        if k in ("int", "uint", "float"):
            m = re.search(r"(\d+)$", t["s"])
            return min(int(m.group(1)) // 8, 16) if m else 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ptr", "ref", "fnptr"):
            return 8
        if k in ("array", "slice"):
            return self.align(t["e"])
        if k == "str":
            return 1
        if k == "tuple":
            return max([1] + [self.align(x) for x in t["ts"]])
        if k == "adt":
            a = t.get("align")
            if isinstance(a, int) and a:
                return a
            return max([1] + [self.align(x) for vs in (t.get("vf") or []) for x in vs])
        if k == "param":
            return 1
        return 1

    def pointee(self, ti):
        t = self.P.types[ti]
        if t["k"] in ("ref", "ptr"):
            return t["e"]
        if t["k"] == "adt" and t["def"].endswith("NonNull"):
            return q.adt_arg(t)
        return None


def cast_seed(P, An, fl, src_ti, dst_ti, l):
    a, b = An.pointee(src_ti), An.pointee(dst_ti)
    if a is None or b is None or l is None:
        return False
    ta, tb = P.types[a], P.types[b]
    if tb["k"] == "param" or ta["k"] == "param":
        # &T -> bytes or bytes -> T: unknown alignment of T
        if tb["k"] != "param" or ta["k"] == "param":
            return False
    elif An.align(b) <= An.align(a):
        return False
    src, _ = fl.sources(l, through=lambda t: [0] if ARITH.search(q.cname(t)) else [])
    al = [s for s in src if s[0] == "call" and ALLOC.search(q.cname(s[2]))]
    if al:
        for s in al:
            o = q.op_local(s[2]["a"][0]) if s[2]["a"] else None
            ls, _ = fl.sources(o) if o is not None else ([], set())
            if not any(x[0] == "call" and LAYOUT.search(q.cname(x[2])) for x in ls):
                return True
        return False
    return True


def run(c):
    P = c.P
    An = A(P)
    fns = [k for k in P.local if (P.fns[k].get("identity") or P.fns[k].get("closure")) and not q.in_tests(P.fns[k]) and not P.fns[k]["path"].startswith("_::")]
    flows = {k: q.Flow(P, k) for k in fns}
    G = q.Calls(P)
    taint = {}     # node -> why
    seeds = 0

    def pfield(key, p):
        """the (adt, field) nodes a place goes through"""
        f = P.fns[key]
        ti = f["locals"][p[0]][0]
        out = []
        for e in p[1:]:
            t = P.types[ti]
            if e == "*":
                n = An.pointee(ti)
                if n is None and t["k"] == "adt" and t["def"].endswith("Box"):
                    n = q.adt_arg(t)
                ti = n if n is not None else ti
            elif e[0] == "f":
                if t["k"] == "adt":
                    out.append(("F", t["def"], e[1]))
                ti = e[2]
            elif e[0] in ("i", "ci"):
                ti = t.get("e", ti)
            if ti is None:
                break
        return out

    def tainted_place(key, p):
        if ("L", key, p[0]) in taint and not any(e != "*" and e[0] == "f" and P.types[P.fns[key]["locals"][p[0]][0]]["k"] == "adt" and P.adts.get(P.types[P.fns[key]["locals"][p[0]][0]]["def"], {}).get("local") for e in p[1:2]):
            if "*" not in p[1:]:
                return taint[("L", key, p[0])]
        fs = pfield(key, p)
        if fs and fs[-1] in taint and p[-1] != "*":
            return taint[fs[-1]]
        return None

    def ptrlike(ti):
        return q.contains(P, ti, lambda t: t["k"] == "ptr" or t["k"] == "ref" or (t["k"] == "adt" and t["def"].endswith("NonNull")))

    changed = True
    casts = []
    for k in fns:
        f, fl = P.fns[k], flows[k]
        for b, j, s in q.stmts(f):
            if s[0] == "=" and s[2][0] == "cast":
                r = s[2]
                l = q.op_local(r[2])
                if cast_seed(P, An, fl, r[3], r[4], l):
                    casts.append((k, s[1], s[3]))
        for b, t in q.calls(f):
            if re.search(r"::(cast|transmute|transmute_copy)$", q.cname(t)) and t["at"]:
                if cast_seed(P, An, fl, t["at"][0], t["dt"], q.op_local(t["a"][0]) if t["a"] else None):
                    casts.append((k, t["d"], t["ln"]))
    for k, p, ln in casts:
        why = "%s (line %s)" % (P.fns[k]["path"], ln)
        if len(p) == 1:
            taint[("L", k, p[0])] = why
        else:
            for x in pfield(k, p)[-1:]:
                taint[x] = why
    rounds = 0
    while changed and rounds < 40:
        changed = False
        rounds += 1

        def put(n, why):
            nonlocal changed
            if n not in taint:
                taint[n] = why
                changed = True
        for k in fns:
            f = P.fns[k]
            for b, j, s in q.stmts(f):
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] == "agg" and r[1][0] == "adt":
                    for i, o in enumerate(r[2]):
                        p = op_place(o)
                        w = p and tainted_place(k, p)
                        if w:
                            t = P.types[r[1][1]]
                            if P.adts.get(t["def"], {}).get("local"):
                                put(("F", t["def"], i), w)
                            elif len(s[1]) == 1:
                                put(("L", k, s[1][0]), w)
                    continue
                if r[0] in ("use", "cast", "agg"):
                    for o in q.rv_ops(r):
                        p = op_place(o)
                        w = p and tainted_place(k, p)
                        if w:
                            if r[0] == "cast":
                                n = An.pointee(r[4])
                                if n is None or (An.align(n) <= 1 and P.types[n]["k"] != "param"):
                                    continue
                            fs = pfield(k, s[1])
                            if fs and len(s[1]) > 1:
                                put(fs[-1], w)
                            elif "*" not in s[1][1:]:
                                put(("L", k, s[1][0]), w)
            for b, t in q.calls(f):
                ws = [(i, tainted_place(k, op_place(o))) for i, o in enumerate(t["a"]) if op_place(o)]
                ws = [(i, w) for i, w in ws if w]
                tg = [x for x in G.targets(t) if P.fns[x]["local"] and x in flows]
                for x in tg:
                    for i, w in ws:
                        put(("L", x, i + 1), w)
                    if ("R", x) in taint and len(t["d"]) == 1:
                        put(("L", k, t["d"][0]), taint[("R", x)])
                if ws and not tg and ARITH.search(q.cname(t)) and not UNALIGNED.search(q.cname(t)) and ptrlike(t["dt"]):
                    n = An.pointee(t["dt"])
                    if n is None or An.align(n) > 1 or P.types[n]["k"] == "param":
                        if not re.search(r"::(as_ref|as_mut|deref|deref_mut)$", q.cname(t)):
                            if len(t["d"]) == 1:
                                put(("L", k, t["d"][0]), ws[0][1])
                            else:
                                for x in pfield(k, t["d"])[-1:]:
                                    put(x, ws[0][1])
            if ("L", k, 0) in taint:
                put(("R", k), taint[("L", k, 0)])
    # sinks
    sinks = 0
    for k in fns:
        f = P.fns[k]
        c.functions.add(k)

        def deref_check(p, ln):
            nonlocal sinks
            for i, e in enumerate(p[1:], 1):
                if e == "*":
                    pre = p[:i]
                    w = tainted_place(k, pre)
                    if w:
                        sinks += 1
                        c.ob("deref|%s|%s" % (f["path"], f["locals"][p[0]][1] or "tmp"), False, P.where(k, ln), "pointers made from byte memory are accessed with unaligned operations only",
                             "a pointer that need not be aligned (made in %s) is dereferenced" % w)
        for b, j, s in q.stmts(f):
            if s[0] != "=":
                continue
            deref_check(s[1], s[3])
            for p in q.rv_places(s[2]):
                deref_check(p, s[3])
        for b, t in q.calls(f):
            for o in t["a"]:
                p = op_place(o)
                if not p:
                    continue
                deref_check(p, t["ln"])
                w = tainted_place(k, p)
                if not w:
                    continue
                n = q.cname(t)
                sinks += 1
                bad = bool(TYPED.search(n)) and not UNALIGNED.search(n)
                c.ob("access|%s|%s" % (f["path"], n), not bad, P.where(k, t["ln"]), "pointers made from byte memory are accessed with unaligned operations only",
                     "%s on a pointer that need not be aligned (made in %s)" % (n, w))
    c.extra["counts"] = dict(casts=len(casts), tainted=len(taint), accesses=sinks)
    c.extra["casts"] = ["%s:%s" % (P.fns[k]["path"], ln) for k, p, ln in casts]
    c.floor("functions", len(fns), 150)
    # aligned allocation
    for k in fns:
        f = P.fns[k]
        al = [i for i in range(1, f["argc"] + 1) if f["locals"][i][1] in ("align", "alignment") and P.types[f["locals"][i][0]]["s"] == "usize"]
        if not al or not re.search(r"arena::Arena::", f["path"]):
            continue
        fl = flows[k]
        dep = fl.derived(al[0])
        # every returned pointer derives from a computation that involves the alignment
        rets = [d for d in fl.defs.get(0, [])]
        for (b, j, r, dp) in rets:
            ops = r["a"] if j == "t" else q.rv_ops(r) + [{"cp": p} for p in q.rv_places(r)]
            ok = any(op_place(o) and (op_place(o)[0] in dep or fl.sources(op_place(o)[0])[1] & {al[0]}) for o in ops)
            c.ob("honours|%s" % f["path"], ok, P.where(k), "a request for aligned memory honours the alignment",
                 "an address is returned that the requested alignment has no influence on")
