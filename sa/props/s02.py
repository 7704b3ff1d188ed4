"""Safe-interface lint.  For every function and trait method reachable as safe public API: no lifetime in the result that no
argument constrains; no &mut in the result tied only to shared borrows; no 'static reference made from raw memory; no raw
pointer parameter that is dereferenced; data reached through raw pointers is returned only under a lifetime of the argument
it was reached from, and never out of a lock guard that ends with the call.  A public type that keeps raw pointers owns what they
point to, keeps its owner alive, or carries a lifetime.  Lifetimes and mutability are never changed by transmute or casts."""
import re
from .. import q
from ..q import op_place


def split(s):
    """top-level comma split"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "(<[{":
            d += 1
        elif ch in ")>]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(sig):
    """-> (inputs, output) as strings"""
    i = sig.index("fn(") + 3
    d, j = 1, i
    while d:
        if sig[j] in "(":
            d += 1
        elif sig[j] == ")":
            d -= 1
        j += 1
    ins = split(sig[i:j - 1])
    out = sig[j:].strip()
    return ins, out[2:].strip() if out.startswith("->") else ""


LT = re.compile(r"'(\w+)")


def lts(s):
    return {x for x in LT.findall(s)}


def raw(t):
    return t["k"] == "ptr" or (t["k"] == "adt" and t["def"].endswith("NonNull"))


RAWREF = re.compile(r"(from_raw_parts(_mut)?|NonNull::<T>::(as_ref|as_mut)|(const_ptr|mut_ptr)::.*::(as_ref|as_mut|as_uninit\w*)|Box::<T>::leak|mem::transmute\w*|get_unchecked(_mut)?)$")


def raw_refs(P, key):
    """(block, stmt, dest place) of references made from raw pointers"""
    f = P.fns[key]
    out = []
    for b, j, s in q.stmts(f):
        if s[0] == "=" and s[2][0] == "ref":
            p = s[2][2]
            ti = f["locals"][p[0]][0]
            for e in p[1:]:
                t = P.types[ti]
                if e == "*":
                    if raw(t):
                        out.append((b, s[1], p, s[3], s[2][1]))
                        break
                    if t["k"] in ("ref", "ptr"):
                        ti = t["e"]
                    else:
                        ti = q.adt_arg(t) if t["k"] == "adt" else None
                elif e[0] == "f":
                    ti = e[2]
                elif e[0] in ("i", "ci"):
                    ti = t.get("e")
                if ti is None:
                    break
    for b, t in q.calls(f):
        if RAWREF.search(q.cname(t)) and t["a"] and op_place(t["a"][0]):
            out.append((b, t["d"], op_place(t["a"][0]), t["ln"], "mut" if P.types[t["dt"]].get("m") or "as_mut" in q.cname(t) else "shared"))
    return out


def run(c):
    P = c.P
    fns = [k for k in P.local if P.fns[k].get("identity") and not q.in_tests(P.fns[k]) and not P.fns[k]["path"].startswith("_::")]
    c.functions |= set(fns)
    G = q.Calls(P)
    n = 0
    # functions whose result may be a reference made from raw memory (also through helpers)
    rawret = {}
    flows = {}
    for k in fns:
        flows[k] = q.Flow(P, k)
    again = True
    rawparam = {k: set() for k in fns}      # parameters dereferenced as raw pointers
    while again:
        again = False
        for k in fns:
            f, fl = P.fns[k], flows[k]
            rs = [(p[0], src[0]) for b, p, src, ln, m in raw_refs(P, k)]
            for b, t in q.calls(f):
                for x in G.targets(t):
                    if x in rawret and t["a"]:
                        for i in rawret[x]:
                            if i - 1 < len(t["a"]) and op_place(t["a"][i - 1]):
                                rs.append((t["d"][0], op_place(t["a"][i - 1])[0]))
            _, back = fl.sources(0)
            got = set()
            for d, s in rs:
                if d in back or d == 0:
                    got |= {x for x in fl.sources(s)[1] if 1 <= x <= f["argc"]} or {0}
            if got - rawret.get(k, set()):
                rawret.setdefault(k, set()).update(got)
                again = True
    # raw parameters that are dereferenced
    again = True
    while again:
        again = False
        for k in fns:
            f, fl = P.fns[k], flows[k]
            used = set()
            for b, j, s in q.stmts(f):
                if s[0] == "=":
                    for p in [s[1]] + q.rv_places(s[2]):
                        if "*" in p[1:] and raw(P.types[f["locals"][p[0]][0]]) and p[1] == "*":
                            used.add(p[0])
            for b, t in q.calls(f):
                nme = q.cname(t)
                if t["a"] and op_place(t["a"][0]) and re.search(r"(ptr::(read|write|copy)\w*|NonNull::<T>::(as_ref|as_mut|read|write)|(const_ptr|mut_ptr)::.*::(read|write|as_ref|as_mut|copy_\w+)\w*|from_raw_parts(_mut)?|from_raw|dealloc)$", nme):
                    for o in t["a"]:
                        p = op_place(o)
                        if p and len(p) == 1:
                            used.add(p[0])
                for x in G.targets(t):
                    for i in rawparam.get(x, ()):
                        if i - 1 < len(t["a"]) and op_place(t["a"][i - 1]):
                            used.add(op_place(t["a"][i - 1])[0])
            for u in used:
                for x in copies(fl, u):
                    if 1 <= x <= f["argc"] and raw(P.types[f["locals"][x][0]]) and x not in rawparam[k]:
                        rawparam[k].add(x)
                        again = True
    for k in fns:
        f = P.fns[k]
        sg = P.sigs.get(k) or P.sigs.get(f["path"])
        if not sg or sg["unsafe"] or not sg["exported"]:
            continue
        try:
            ins, out = parse(sg["sig"])
        except ValueError:
            continue
        n += 1
        olt = lts(out) - {"static"}
        ilt = set()
        for x in ins:
            ilt |= lts(x)
        free = olt - ilt
        c.ob("unbound|" + f["path"], not free, P.where(k), "every lifetime in a result is bound by an argument", "the result's lifetime '%s is chosen by the caller: %s" % (sorted(free), sg["sig"]))
        # &mut from &
        for l in set(re.findall(r"&'(\w+) mut ", out)) - {"static"}:
            holders = [x for x in ins if l in lts(x)]
            ok = any(re.search(r"&'%s mut " % l, x) or not re.search(r"^&'%s (?!mut)" % l, x) for x in holders)
            c.ob("mutfromshared|" + f["path"], ok, P.where(k), "exclusive access is never made from a shared borrow", "a &mut of lifetime '%s is returned for a shared borrow: %s" % (l, sg["sig"]))
        # 'static from raw memory
        if k in rawret and out:
            if re.search(r"&'static ", out):
                c.ob("static|" + f["path"], False, P.where(k), "references made from raw memory are not 'static", "a reference made from a raw pointer is returned as 'static")
            if olt:
                good = [i for i, x in enumerate(ins) if lts(x) & olt]
                ok = any(i - 1 in good for i in rawret[k])
                c.ob("origin|" + f["path"], ok, P.where(k), "data behind raw pointers is returned under the lifetime of the argument it came from",
                     "the returned data comes from argument(s) %s but its lifetime is that of argument(s) %s" % (sorted(rawret[k]), [i + 1 for i in good]))
                # through a guard that ends with the call
                g = through_guard(P, k, flows[k])
                c.ob("guarded|" + f["path"], not g, P.where(k), "data protected by a lock is not returned by reference past the lock", "the returned reference is reached through a guard dropped at line %s" % g)
        # raw parameters
        for i in rawparam[k]:
            c.ob("rawparam|%s|%d" % (f["path"], i), False, P.where(k), "safe functions do not dereference raw pointers they are given", "safe public function dereferences its raw pointer parameter %s" % (f["locals"][i][1] or i))
    c.floor("safe public functions", n, 120)
    # types
    m = 0
    dropped = {P.types[x["self"]].get("def") for x in P.impls if x["trait"].endswith("ops::Drop")}
    for path, a in P.adts.items():
        if not a["local"] or not a["exported"]:
            continue
        fts = adt_fields(P, path)
        if fts is None:
            continue
        direct = [x for x in fts if direct_raw(P, x)]
        m += 1
        if not direct:
            continue
        owner = any(q.contains(P, x, lambda t: t["k"] == "adt" and re.search(r"(Arc|Rc|Box|Vec)$", t["def"]) is not None) for x in fts if x not in direct)
        life = any(g[1] == "r" for g in a["generics"])
        c.ob("holder|" + path, a["has_drop"] or path in dropped or owner or life, "%s:%s" % tuple(a["span"][:2]), "a public type that keeps raw pointers owns the memory, keeps its owner alive or has a lifetime",
             "%s keeps a raw pointer and nothing that keeps the memory alive; safe code can use it after the memory is gone" % path)
        # copies of an owning pointer
    c.floor("public types", m, 25)
    # transmutes / casts that extend lifetimes or add mutability
    for k in [k for k in P.local if (P.fns[k].get("identity") or P.fns[k].get("closure")) and not q.in_tests(P.fns[k])]:
        f = P.fns[k]
        if f["path"].startswith("_::"):
            continue
        for b, j, s in q.stmts(f):
            if s[0] == "=" and s[2][0] == "cast":
                a, d = P.types[s[2][3]], P.types[s[2][4]]
                if "Transmute" in str(s[2][1]) and a["k"] == "ref" and d["k"] == "ref" and (P.types[a["e"]]["s"] == P.types[d["e"]]["s"] or d.get("m") and not a.get("m")):
                    c.ob("transmute|" + f["path"], False, P.where(k, s[3]), "lifetimes and mutability are not changed by transmute", "a reference is transmuted to %s" % d["s"])
        fl = flows.get(k) or q.Flow(P, k)
        for b, dst, src, ln, kind in raw_refs(P, k):
            if kind != "mut":
                continue
            w = from_shared(P, k, fl, src)
            c.ob("constcast|%s" % f["path"], not w, P.where(k, ln), "no &mut is made from memory reached through a shared reference", "a mutable reference is made from a pointer that was cast from a shared reference (line %s)" % w)


def copies(fl, l):
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for (b, j, r, dp) in fl.defs.get(x, []):
            if len(dp) == 1 and j != "t" and r[0] in ("use", "cast", "ref"):
                for p in q.rv_places(r):
                    if "*" not in p[1:]:
                        todo.append(p[0])
            elif len(dp) == 1 and j == "t" and re.search(r"::(as_ptr|offset|add|sub|cast|new_unchecked|as_mut|as_ref)$", q.cname(r)) and r["a"] and op_place(r["a"][0]):
                todo.append(op_place(r["a"][0])[0])
    return seen


def from_shared(P, key, fl, src):
    """the raw pointer in place src was cast from a shared reference of this function (const -> mut cast): line or None"""
    f = P.fns[key]
    if not raw(P.types[f["locals"][src[0]][0]]):
        return None
    seen, todo = set(), [src[0]]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for (b, j, r, dp) in fl.defs.get(x, []):
            if len(dp) != 1:
                continue
            if j == "t":
                if re.search(r"(slice::<impl \[T\]>|Vec::<T(, A)?>|str)::as_ptr$", q.cname(r)):
                    # as_ptr() of a shared slice cast to *mut and written
                    return r["ln"] if r["at"] and P.types[r["at"][0]]["k"] == "ref" and not P.types[r["at"][0]].get("m") and not owned_here(P, key, fl, r) else None
                if re.search(r"::(offset|add|sub|cast|cast_mut|wrapping_\w+|as_ptr|new_unchecked|as_mut)$", q.cname(r)) and r["a"] and op_place(r["a"][0]):
                    p = op_place(r["a"][0])
                    if "*" not in p[1:]:
                        todo.append(p[0])
                continue
            if r[0] == "rawptr" and str(r[1]).lower().startswith("const"):
                p = r[2]
                t = P.types[f["locals"][p[0]][0]]
                if len(p) > 1 and p[1] == "*" and t["k"] == "ref" and not t.get("m"):
                    return f["blocks"][b]["s"][j][3]
                continue
            if r[0] in ("use", "cast"):
                for p in q.rv_places(r):
                    if "*" not in p[1:]:
                        todo.append(p[0])
                        t = P.types[f["locals"][p[0]][0]]
                        if r[0] == "cast" and t["k"] == "ref" and not t.get("m") and P.types[r[4]]["k"] == "ptr" and P.types[r[4]].get("m"):
                            return f["blocks"][b]["s"][j][3]
    return None


def owned_here(P, key, fl, t):
    """as_ptr of memory this function holds exclusively (a &mut or an owned local)"""
    l = op_place(t["a"][0])[0] if t["a"] and op_place(t["a"][0]) else None
    if l is None:
        return True
    f = P.fns[key]
    _, locs = fl.sources(l)
    args = [x for x in locs if 1 <= x <= f["argc"]]
    return all(P.types[f["locals"][x][0]]["k"] != "ref" or P.types[f["locals"][x][0]].get("m") for x in args)


def adt_fields(P, path):
    for t in P.types:
        if t["k"] == "adt" and t["def"] == path:
            return [x for vs in t.get("vf") or [] for x in vs]
    return None


def direct_raw(P, ti, d=0):
    """raw pointers held without an owner in between (through Option, tuples, arrays and private structs)"""
    t = P.types[ti]
    if raw(t):
        return True
    if d > 4:
        return False
    if t["k"] == "tuple":
        return any(direct_raw(P, x, d + 1) for x in t["ts"])
    if t["k"] == "array":
        return direct_raw(P, t["e"], d + 1)
    if t["k"] == "adt":
        if t["def"].endswith(("Option", "Vec", "Cell", "RefCell", "ManuallyDrop")):
            return any(direct_raw(P, a["t"], d + 1) for a in t.get("args") or [] if "t" in a)
        a = P.adts.get(t["def"])
        if a and a["local"] and not a["has_drop"] and not a["exported"]:
            return any(direct_raw(P, x, d + 1) for vs in t.get("vf") or [] for x in vs)
    return False


def through_guard(P, key, fl):
    """a returned raw-made reference is loaded through a lock guard local: its line, else None"""
    f = P.fns[key]
    _, locs = fl.sources(0)
    for x in locs:
        t = P.types[f["locals"][x][0]]
        if t["k"] == "adt" and re.search(r"(MutexGuard|RwLockReadGuard|RwLockWriteGuard|Ref|RefMut)$", t["def"]):
            for (b, j, r, dp) in fl.defs.get(x, []):
                return r["ln"] if j == "t" else f["blocks"][b]["s"][j][3]
            return f["span"][1]
    return None
