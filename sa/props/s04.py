"""Ownership of heap blocks.  Owning containers are rebuilt from raw parts only from pointers the same kind of container gave up
(Box::from_raw <- Box::into_raw of the same type; Vec/String::from_raw_parts <- a forgotten Vec/String, or the unchecked
contract of an `unsafe fn` all of whose callers satisfy the rule); dealloc gets the layout recorded with the pointer at
allocation; a type whose Drop releases memory is not Copy or Clone by bits; after a call that frees its argument the pointer is
not touched again on any path; values with drop glue are not duplicated bitwise."""
import re
from .. import q
from ..q import op_place

FROM_RAW = re.compile(r"(boxed::Box::<T(, A)?>|rc::Rc::<T(, A)?>|sync::Arc::<T(, A)?>|ffi::CString|Box::<T>|Rc::<T>|Arc::<T>)::(from_raw|from_raw_in|from_non_null)$")
INTO_RAW = re.compile(r"::(into_raw|leak|into_raw_with_allocator|into_non_null)$")
PARTS = re.compile(r"(vec::Vec::<T(, A)?>|string::String)::(from_raw_parts|from_raw_parts_in)$")
GIVEUP = re.compile(r"(ManuallyDrop.*|::leak$|::into_raw_parts|mem::forget|::into_boxed_slice|::into_raw$)")
ALLOC = re.compile(r"alloc::(alloc|alloc_zeroed)$")
FREE = re.compile(r"alloc::dealloc$")
DUP = re.compile(r"(ptr::(read|copy|copy_nonoverlapping|read_unaligned|read_volatile)|mem::transmute_copy|::(copy_to|copy_from|copy_to_nonoverlapping|copy_from_nonoverlapping|assume_init_read))$|const_ptr.*::read\w*$|mut_ptr.*::read\w*$")
ALIAS = re.compile(r"::(as_ptr|as_mut_ptr|new_unchecked|new|unwrap|unwrap_unchecked|expect|as_mut|as_ref|cast|cast_mut|cast_const|into|from|clone|deref|deref_mut|add|offset|borrow|borrow_mut)$")


def plain(P, ti, seen=None):
    """no drop glue can hang on the type"""
    t = P.types[ti]
    k = t["k"]
    if k in ("int", "uint", "float", "bool", "char", "ptr", "ref", "fnptr", "fndef", "str", "never"):
        return True
    if k in ("array", "slice"):
        return plain(P, t["e"])
    if k == "tuple":
        return all(plain(P, x) for x in t["ts"])
    if k == "adt":
        if re.search(r"(NonNull|PhantomData|marker::|num::NonZero)", t["def"]):
            return True
        if t["def"].endswith("option::Option") or t["def"].endswith("result::Result"):
            return all(plain(P, a["t"]) for a in t.get("args") or [] if "t" in a)
        a = P.adts.get(t["def"])
        if a and a.get("has_drop"):
            return False
        if t["def"].startswith(("std::vec", "std::string", "std::boxed", "std::sync", "std::rc", "std::collections")):
            return False
        seen = seen or set()
        if ti in seen:
            return True
        return all(plain(P, x, seen | {ti}) for vs in (t.get("vf") or []) for x in vs)
    return False


def boxed(P, t):
    """identity of the owned type of a Box/Rc/Arc from_raw or into_raw call"""
    for x in [t["dt"]] + list(t["at"]):
        ty = P.types[x]
        if ty["k"] == "adt" and re.search(r"(Box|Rc|Arc|CString)$", ty["def"]):
            a = q.adt_arg(ty)
            if a is None:
                return (ty["def"], "")
            at = P.types[a]
            return (ty["def"].rsplit("::", 1)[-1], at["def"] if at["k"] == "adt" else at["s"])
    return None


def run(c):
    P = c.P
    fns = [k for k in P.local if (P.fns[k].get("identity") or P.fns[k].get("closure")) and not q.in_tests(P.fns[k]) and not P.fns[k]["path"].startswith("_::")]
    G = q.Calls(P)
    flows = {}

    def fl(k):
        if k not in flows:
            flows[k] = q.Flow(P, k)
        return flows[k]
    c.functions |= set(fns)
    given = set()
    for k in fns:
        for b, t in q.calls(P.fns[k]):
            if INTO_RAW.search(q.cname(t)):
                x = boxed(P, t)
                if x:
                    given.add(x)
    n = 0
    # 1. from_raw
    for k in fns:
        for b, t in q.calls(P.fns[k]):
            if FROM_RAW.search(q.cname(t)):
                n += 1
                x = boxed(P, t)
                c.ob("from_raw|%s|%s" % (P.fns[k]["path"], x), x in given, P.where(k, t["ln"]), "an owner is rebuilt only from what the same kind of owner gave up",
                     "%s::from_raw of %s, which no %s of that type was turned into" % ((x or ("?", "?"))[0], (x or ("?", "?"))[1], (x or ("?",))[0]))
    # 2. from_raw_parts, interprocedurally through unsafe fns
    adopt = {}          # key -> parameter indices adopted by an owning container
    work = True
    sites = []
    while work:
        work = False
        sites = []
        for k in fns:
            f = P.fns[k]
            for b, t in q.calls(f):
                idx = []
                if PARTS.search(q.cname(t)):
                    idx = [0]
                else:
                    for x in G.targets(t):
                        idx += list(adopt.get(x, []))
                for i in set(idx):
                    l = q.op_local(t["a"][i])
                    ok, params = owned_source(P, k, fl(k), l)
                    if not ok and params and P.sigs.get(k, {}).get("unsafe"):
                        if not set(params) <= adopt.setdefault(k, set()):
                            adopt[k] |= set(params)
                            work = True
                        ok = True
                    sites.append((k, b, t, ok))
    for k, b, t, ok in sites:
        n += 1
        c.ob("adopt|%s|%s" % (P.fns[k]["path"], q.cname(t)), ok, P.where(k, t["ln"]), "a container adopts only memory a container of its kind gave up",
             "%s adopts memory that no Vec or String allocated or gave up" % q.cname(t))
    # 3. alloc / dealloc
    for k in fns:
        f = P.fns[k]
        for b, t in q.calls(f):
            if ALLOC.search(q.cname(t)):
                n += 1
                lay = q.op_local(t["a"][0])
                der = fl(k).derived(t["d"][0], through=lambda t: [0] if ALIAS.search(q.cname(t)) else [])
                lays = set()
                for x in fl(k).sources(lay, through=lambda t: [])[1] | {lay}:
                    lays |= fl(k).derived(x, through=lambda t: [])
                ok = False
                for bb, j, s in q.stmts(f):
                    if s[0] == "=" and s[2][0] == "agg":
                        ls = [q.op_local(o) for o in s[2][2]]
                        if any(x in der for x in ls) and any(x in lays for x in ls):
                            ok = True
                # same layout kept by construction: Layout::new::<T> / array::<T> with the pointer cast to T
                c.ob("recorded|%s" % f["path"], ok, P.where(k, t["ln"]), "an allocation is recorded together with its layout",
                     "the layout of this allocation is not recorded with the pointer")
            if FREE.search(q.cname(t)):
                n += 1
                pl, ll = q.op_local(t["a"][0]), q.op_local(t["a"][1])
                ps = {x for x in fl(k).sources(pl)[1]}
                ls = {x for x in fl(k).sources(ll)[1]} if ll is not None else set()
                common = {x for x in ps & ls if x}
                lsrc = fl(k).sources(ll)[0] if ll is not None else []
                computed = any(s[0] == "call" and re.search(r"Layout::(new|array|from_size_align\w*|for_value)$", q.cname(s[2])) for s in lsrc)
                c.ob("release|%s" % f["path"], bool(common) and not computed, P.where(k, t["ln"]), "memory is released with the layout recorded at its allocation",
                     "the layout passed to dealloc is not the one recorded with the pointer")
    # 4. freeing types are not copyable by bits
    frees = freeing(P, G, fns)
    for im in P.impls:
        if im["trait"] in ("std::ops::Drop", "core::ops::Drop") and im.get("methods"):
            st = P.types[im["self"]]
            if st["k"] != "adt" or not P.adts.get(st["def"], {}).get("local"):
                continue
            dk = [k for k in fns if P.fns[k]["path"] == im["methods"][0][1]] or [k for k in fns if P.fns[k].get("owner") == im["methods"][0][1]]
            n += 1
            cl = [x for x in P.impls if x["trait"] in ("std::clone::Clone", "std::marker::Copy", "core::clone::Clone", "core::marker::Copy") and P.types[x["self"]].get("def") == st["def"] and x.get("polarity", "Positive") == "Positive"]
            bits = [x for x in cl if x["trait"].endswith("Copy") or clones_bits(P, fns, x, st["def"])]
            c.ob("unique|%s" % st["def"], not bits, "%s:%s" % tuple(im["span"][:2]) if im.get("span") else "", "a type whose Drop releases memory is not copied by bits",
                 "%s releases memory when dropped and its Clone copies the raw pointers" % st["def"])
    # 5. use after free
    for k in fns:
        f = P.fns[k]
        if f["path"].endswith("::drop") and False:
            continue
        for b, t in q.calls(f):
            idx = free_args(P, G, t, frees)
            for i in idx:
                l = q.op_local(t["a"][i])
                if l is None:
                    continue
                n += 1
                bad = used_after(P, k, fl(k), b, t, l)
                c.ob("after|%s|%s" % (f["path"], q.cname(t).rsplit("::", 1)[-1]), not bad, P.where(k, t["ln"]), "freed memory is not touched again",
                     "the pointer freed here is used again at line %s" % bad)
    # 6. bitwise duplicates
    for k in fns:
        f = P.fns[k]
        for b, t in q.calls(f):
            if DUP.search(q.cname(t)):
                n += 1
                e = None
                for x in t["at"]:
                    ty = P.types[x]
                    if ty["k"] in ("ptr", "ref"):
                        e = ty["e"]
                        break
                ok = e is None or plain(P, e)
                if not ok:
                    ok = any(re.search(r"mem::forget|ptr::write|ManuallyDrop", q.cname(tt)) for _, tt in q.calls(f))
                c.ob("bits|%s|%s" % (f["path"], q.cname(t)), ok, P.where(k, t["ln"]), "owned values are not duplicated bitwise",
                     "%s duplicates a value of %s, which owns memory" % (q.cname(t), P.types[e]["s"] if e is not None else "?"))
    c.floor("functions", len(fns), 150)
    c.extra["sites"] = n
    c.anchor(any(k[1].endswith("LRUHandle") for k in given), "cache entries on the heap")


def owned_source(P, key, fl, l):
    """pointer local derives from a container that gave its memory up; else the parameters it derives from"""
    f = P.fns[key]
    through = lambda t: [0] if ALIAS.search(q.cname(t)) or GIVEUP.search(q.cname(t)) else []
    src, locs = fl.sources(l, through=through)
    for x in locs:
        ty = P.types[f["locals"][x][0]]
        if ty["k"] == "adt" and "ManuallyDrop" in ty["def"]:
            return True, []
    if any(s[0] == "call" and GIVEUP.search(q.cname(s[2])) for s in src):
        return True, []
    # pointer of a local Vec that is forgotten in the same function
    forgets = {q.op_local(t["a"][0]) for _, t in q.calls(f) if q.cname(t).endswith("mem::forget") and t["a"]}
    for x in forgets:
        if x is not None and fl.sources(x)[1] & locs:
            return True, []
    return False, [x - 1 for x in locs if 1 <= x <= f["argc"]]


def freeing(P, G, fns):
    """key -> parameter locals whose pointee the function frees"""
    out = {}
    again = True
    while again:
        again = False
        for k in fns:
            f = P.fns[k]
            fl = None
            for b, t in q.calls(f):
                for i in free_args(P, G, t, out):
                    l = q.op_local(t["a"][i])
                    if l is None:
                        continue
                    fl = fl or q.Flow(P, k)
                    # the freed pointer is the parameter itself (copied, not loaded from memory behind it)
                    for x in same_value(P, fl, l):
                        if 1 <= x <= f["argc"] and P.types[f["locals"][x][0]]["k"] != "ref":
                            if x not in out.setdefault(k, set()):
                                out[k].add(x)
                                again = True
    return out


def same_value(P, fl, l):
    """locals holding the same pointer (copies, NonNull::as_ptr, Option wrapping)"""
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for (b, j, r, dp) in fl.defs.get(x, []):
            if len(dp) != 1:
                continue
            if j == "t":
                if re.search(r"::(as_ptr|as_mut_ptr|new_unchecked|new|unwrap|unwrap_unchecked|expect|cast|cast_mut|into|from)$", q.cname(r)) and r["a"] and q.op_local(r["a"][0]) is not None:
                    p = op_place(r["a"][0])
                    if "*" not in p[1:]:
                        todo.append(p[0])
            elif r[0] in ("use", "cast", "ref"):
                for p in q.rv_places(r):
                    if "*" not in p[1:] and (r[0] != "ref"):
                        todo.append(p[0])
                    elif r[0] == "ref" and len(p) == 1:
                        todo.append(p[0])
    return seen


def free_args(P, G, t, frees):
    n = q.cname(t)
    if FROM_RAW.search(n) or FREE.search(n) or n.endswith("drop_in_place"):
        return [0]
    out = []
    for x in G.targets(t):
        out += [p - 1 for p in frees.get(x, ())]
    return [i for i in set(out) if i < len(t["a"])]


TRANSP = re.compile(r"::(as_ptr|as_mut_ptr|as_ref|as_mut|new_unchecked|new|unwrap|unwrap_unchecked|expect|cast|cast_mut|into|from)$")


def values(P, key):
    """forward value numbering of locals (copies, Option and NonNull wrapping are transparent): block -> {local: id} before
    the terminator"""
    f, cfg = P.fns[key], P.cfg(key)

    def pid(env, p):
        if "*" in p[1:]:
            return None
        v = env.get(p[0])
        if v is None:
            v = ("entry", p[0])
        down = False
        for e in p[1:]:
            if e[0] == "d":
                down = True
            elif e[0] == "f" and not down:
                v = ("f", v, e[1])
            elif e[0] == "f":
                down = False
            else:
                return None
        return v

    def flow(b, env):
        env = dict(env)
        blk = f["blocks"][b]
        for j, s in enumerate(blk["s"]):
            if s[0] == "=":
                if len(s[1]) == 1:
                    r, v = s[2], None
                    if r[0] in ("use", "cast", "ref"):
                        ps = q.rv_places(r)
                        v = pid(env, ps[0]) if len(ps) == 1 else None
                    elif r[0] == "agg" and len(r[2]) == 1 and op_place(r[2][0]):
                        v = pid(env, op_place(r[2][0]))
                    env[s[1][0]] = v if v is not None else ("d", b, j)
                elif "*" not in s[1][1:]:
                    env[s[1][0]] = ("d", b, j)
            elif s[0] == "dead":
                env.pop(s[1], None)
        mid = dict(env)
        t = blk["t"]
        if isinstance(t, dict) and len(t["d"]) == 1:
            v = None
            if TRANSP.search(q.cname(t)) and len(t["a"]) == 1 and op_place(t["a"][0]):
                v = pid(env, op_place(t["a"][0]))
            env[t["d"][0]] = v if v is not None else ("d", b, "t")
        return mid, env
    ins = {0: {}}
    mids, todo, n = {}, [0], 0
    while todo and n < 20000:
        n += 1
        b = todo.pop(0)
        mids[b], out = flow(b, ins[b])
        for x in cfg.succ[b]:
            if x not in ins:
                ins[x] = dict(out)
                todo.append(x)
                continue
            cur, ch = ins[x], False
            for l in list(cur):
                if l not in out:
                    if cur[l] != ("phi", x, l):
                        cur[l] = ("phi", x, l)
                        ch = True
                elif out[l] != cur[l] and cur[l] != ("phi", x, l):
                    cur[l] = ("phi", x, l)
                    ch = True
            if ch and x not in todo:
                todo.append(x)
    return mids


def used_after(P, key, fl, b, t, l):
    """line of a use of the freed pointer on a path after block b, or None"""
    f, cfg = P.fns[key], P.cfg(key)
    f["_val4"] = f.get("_val4") or values(P, key)
    env = f["_val4"].get(b, {})
    me = env.get(l, ("entry", l))
    fwd = {l} | {x for x, v in env.items() if v == me}
    # forward walk, dropping aliases that are redefined
    start = cfg.succ[b]
    seen = set()
    todo = [(x, frozenset(fwd - ({t["d"][0]} if len(t["d"]) == 1 else set()))) for x in start]
    while todo:
        bb, live = todo.pop()
        if (bb, live) in seen or len(seen) > 6000:
            continue
        seen.add((bb, live))
        blk = f["blocks"][bb]
        cur = set(live)
        for s in blk["s"]:
            if s[0] == "=":
                for p in [s[1]] + q.rv_places(s[2]):
                    if p[0] in cur and "*" in p[1:]:
                        return s[3]
                if len(s[1]) == 1:
                    src = [p for p in q.rv_places(s[2]) if p[0] in cur and "*" not in p[1:]]
                    if src:
                        cur.add(s[1][0])
                    else:
                        cur.discard(s[1][0])
            elif s[0] == "dead":
                cur.discard(s[1])
        tt = blk["t"]
        if isinstance(tt, dict):
            nme = q.cname(tt)
            for o in tt["a"]:
                p = op_place(o)
                if p and p[0] in cur:
                    if "*" in p[1:] or re.search(r"::(as_ref|as_mut|from_raw|read|write|dealloc|drop_in_place)$", nme):
                        return tt["ln"]
                    if FROM_RAW.search(nme) or FREE.search(nme):
                        return tt["ln"]
            if len(tt["d"]) == 1:
                cur.discard(tt["d"][0])
        for x in cfg.succ[bb]:
            todo.append((x, frozenset(cur)))
    return None


def clones_bits(P, fns, im, adt):
    """a hand-written or derived Clone of a type with raw pointer fields that does not allocate"""
    a = P.adts[adt]
    ms = [m[1] for m in im.get("methods", []) if m[0] == "clone"]
    for k in fns:
        if P.fns[k]["path"] in ms or P.fns[k].get("owner") in ms:
            al = any(re.search(r"(Box::<T>::new|alloc::|Vec::<T>|to_vec|with_capacity|box_new)", q.cname(t)) for _, t in q.calls(P.fns[k]))
            raw = any(q.contains(P, x, lambda t: t["k"] == "ptr" or (t["k"] == "adt" and t["def"].endswith("NonNull"))) for x in field_types(P, adt))
            return raw and not al
    return True


def field_types(P, adt):
    for t in P.types:
        if t["k"] == "adt" and t["def"] == adt:
            return [x for vs in t.get("vf") or [] for x in vs]
    return []
