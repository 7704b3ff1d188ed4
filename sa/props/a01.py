"""A01: the arena against its contract.

Histories of requests with unknown sizes are run by the abstract interpreter from a new arena; every block obtained from the system
allocator is an object of its own.  After each request: the returned memory has the requested length, lies inside a live block and
overlaps nothing returned before; the memory usage is the sum of the block sizes; no block is released.  Dropping the arena releases
each block once, with its own address and layout."""
from ..eq import *
from ..hist import Hist
from .. import ai
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
AR = "util::arena::Arena::"
NEW = "<util::arena::Arena as std::default::Default>::default"
DROP = "<util::arena::Arena as std::ops::Drop>::drop"
COPY = "<util::slice::Slice as util::arena::ArenaAllocLike>::copy_with_arena"
UNS = "util::unsafe_slice::UnsafeSlice::new_with_arena"
R_LEN = "a request returns at least the requested number of bytes"
R_IN = "the memory returned lies inside a live block of the arena"
R_DIS = "the memory returned overlaps nothing returned before"
R_USE = "the memory usage is the sum of the blocks obtained from the system"
R_KEEP = "no block is released before the arena is dropped"
R_DROP = "dropping the arena releases each block exactly once, at its address and with its layout"
R_OK = "a request the system can satisfy does not fail"
R_CPY = "copying into the arena yields the same bytes"
BIG = 1 << 40


class Blocks:
    E = None

    def event(self, E, st, fr, what, a):
        if what == "alloc":
            st.ghost["blocks"] = st.ghost.get("blocks", ()) + ((a[0], a[1], a[2]),)
        elif what == "dealloc":
            st.ghost["freed"] = st.ghost.get("freed", ()) + ((a[0], a[1]),)

    def drop(self, *a, **k):
        return None

    def __getattr__(self, n):
        return lambda *a, **k: None


def run(c):
    P = c.P
    for f in (NEW, AR + "allocate", AR + "memory_usage"):
        if not c.need(f):
            return
    depth = 4 if c.tier == "quick" else 6
    c.extra["requests per history"] = depth
    H = Hist(c, "arena", Blocks(), exact=True, unroll=12, place_values=True)
    H.E.MAXD = 400
    ops = [("allocate", None)]
    if P.one(AR + "allocate_align"):
        ops += [("allocate_align", 1), ("allocate_align", 8)]
    sts, p = [], None
    for s, v in H.call([ai.State()], NEW, []):
        s, p = H.place(s, "arena", v)
        sts.append(s)
    c.anchor(sts, "a new arena")
    for s in sts:
        step(c, H, s, p, (), "", depth, ops)
    copies(c)
    c.functions |= set(H.E.inlined)
    c.floor("requests examined", c.extra.get("requests", 0), 20)


def cur(st):
    return st.ghost.get("blocks", ()), st.ghost.get("freed", ())


def step(c, H, st, p, given, tag, depth, ops):
    look(c, H, st, p, tag)
    if depth == 0:
        return
    # every operation as the last of a history and as the first; the middle ones vary only in size
    for f, al in ops:
        if al == 1 and depth > 1:
            continue
        t = tag + " " + f + (":%d" % al if al else "")
        n = var(H.E.isym(ai.nm("given", "size", t), H.E.usz))
        c.extra["requests"] = c.extra.get("requests", 0) + 1
        w = H.P.where(H.P.one(AR + f))
        H.watch()
        rs = H.call([st], AR + f, [p, VInt(n)] + ([VInt(const(al))] if al else []))
        fs = H.E.fails or []
        # a request beyond what can be addressed may be refused
        H.E.fails = [x for x in fs if x[1] != "oob"]
        small = f_le(n - BIG)
        for _, k in given:
            small = f_and(small, f_le(k - BIG))
        H.nofail("ok|" + f, small, w, R_OK, "after" + tag, skip=lambda kind, what, fn: "handle_alloc_error" in what)
        H.E.fails = [x for x in fs if x[1] == "oob"]
        H.nofail("mem|" + f, T, w, R_IN, "after" + tag)
        for s, v in rs:
            fat = v if isinstance(v, VFat) else None
            if fat is None:
                c.ob("len|" + f, False, w, R_LEN, "the result is not modelled", undecided=True)
                continue
            H.ask("len|" + f, s, f_le(n - fat.n), w, R_LEN, "after" + tag)
            for s1 in within([s], f_le(n - fat.n)):
                inside(c, H, s1, fat, given, n, f, tag, w)
                step(c, H, s1, p, given + ((fat, n),), t, depth - 1, ops)


def inside(c, H, s, fat, given, n, f, tag, w):
    bl, fr = cur(s)
    mine = [b for b in bl if b[0] == fat.o]
    off = fat.p[-1][1] if len(fat.p) == 1 and fat.p[-1][0] == "i" else const(0) if not fat.p else None
    if off is None or (not mine and not known(H, fat.o)):
        c.ob("in|" + f, False, w, R_IN, "where the memory lies is not determined", undecided=True)
    elif not mine:
        H.ask("in|" + f, s, f_eq(n - 0), w, R_IN, "memory outside every block, after" + tag)
    else:
        m = mine[0][1]
        H.ask("in|" + f, s, f_and(f_le(-off), f_le(off + n - m)), w, R_IN, "after" + tag)
    if off is None:
        return
    for g, k in given:
        if g.o != fat.o:
            c.ob("disjoint|" + f, True, w, R_DIS)
            continue
        o2 = g.p[-1][1] if g.p else const(0)
        H.ask("disjoint|" + f, s, f_or(f_or(f_le(o2 + k - off), f_le(off + n - o2)), f_or(f_le(n), f_le(k))), w, R_DIS, "after" + tag)


def known(H, o):
    return isinstance(o, tuple) and o and o[0] in ("stk", "static", "promoted")


def look(c, H, st, p, tag):
    P = H.P
    w = P.where(P.one(AR + "memory_usage"))
    bl, fr = cur(st)
    last = tag.split(" ")[-1] or "new"
    if fr:
        und = bool(st.ghost.get("havoc"))
        if und:
            c.ob("kept|" + last, False, w, R_KEEP, "a release in an undetermined state", undecided=True)
        else:
            H.ask("kept|" + last, st, F, w, R_KEEP, "released after" + tag)
        return
    c.ob("kept|" + last, True, w, R_KEEP)
    tot = const(0)
    for b in bl:
        tot = tot + b[1]
    H.watch()
    for s, v in H.call([st], AR + "memory_usage", [p]):
        H.same_val("usage|" + last, s, v, VInt(tot), w, R_USE, "after" + tag)
    H.nofail("ok|memory_usage", T, w, R_OK)
    k = P.one(DROP)
    if not k:
        if bl:
            c.ob("drop|none", False, "", R_DROP, "an arena has no Drop, yet holds %d blocks" % len(bl), undecided=False)
        return
    w = P.where(k)
    H.watch()
    n = 0
    for s, v in H.call([st], DROP, [p]):
        n += 1
        released(c, H, s, bl, last, tag, w)
    if not n and not H.E.fails:
        c.ob("drop|" + last, False, w, R_DROP, "drop not modelled", undecided=True)
    H.nofail("drop ok", T, w, R_DROP, "after" + tag)


def released(c, H, s, bl, last, tag, w):
    key = "drop|" + last
    fr = cur(s)[1]
    seen = []
    for ptr, lay in fr:
        if not isinstance(ptr, VPtr):
            return c.ob(key, False, w, R_DROP, "the address released is not determined", undecided=True)
        b = [x for x in bl if x[0] == ptr.o]
        if not b:
            return c.ob(key, False, w, R_DROP, "memory that is no block is released", undecided=True)
        if ptr.o in seen:
            return H.ask(key, s, F, w, R_DROP, "a block is released twice, after" + tag)
        seen.append(ptr.o)
        off = ptr.p[-1][1] if ptr.p else const(0)
        H.ask("drop at|" + last, s, f_eq(off), w, R_DROP, "the address released is not the block's, after" + tag)
        from ..models import layout_size
        H.ask("drop size|" + last, s, f_eq(layout_size(H.E, s, lay) - b[0][1]), w, R_DROP, "the size released is not the block's, after" + tag)
        la, lb = align(lay), align(b[0][2])
        if la is not None and lb is not None:
            H.ask("drop align|" + last, s, f_eq(la - lb), w, R_DROP, "the alignment released is not the block's, after" + tag)
    if len(seen) != len(bl):
        if s.ghost.get("havoc"):
            return c.ob(key, False, w, R_DROP, "undetermined", undecided=True)
        return H.ask(key, s, F, w, R_DROP, "%d of %d blocks released, after%s" % (len(seen), len(bl), tag))
    c.ob(key, True, w, R_DROP)


def align(lay):
    return lay.a[1].l if isinstance(lay, VIter) and lay.k == "layout" else None


def copies(c):
    """Slice::copy_with_arena and UnsafeSlice::new_with_arena over an arena in an unknown state"""
    from .m01 import bytes_of as raw
    P = c.P
    for name, suf in (("copy_with_arena", COPY), ("new_with_arena", UNS)):
        k = P.one(suf)
        if not k:
            c.extra.setdefault("absent", []).append(suf)
            continue
        w = P.where(k)
        H = Hist(c, "copy|" + name, unroll=6)
        fn = P.fns[k]
        ts = [fn["locals"][i + 1][0] for i in range(fn["argc"])]
        src, arena = H.given(ts[0], "source"), H.given(ts[1], "arena")
        st = ai.State()
        sb = bytes_of(H, st, src, ts[0])
        n = H.length(st, sb) if sb is not None else None
        if n is None:
            c.ob("copy|" + name, False, w, R_CPY, "the source's bytes are not determined", undecided=True)
            continue
        H.watch()
        for s, v in H.call(within([st], f_le(n - BIG)), k, [src, arena]):
            if H.vname(v) == "Ok":
                v = v.fs[0]
            elif H.vname(v) == "Err":
                continue
            b = raw(H, s, v) if name == "new_with_arena" else H.arr(s, v)
            if b is None:
                c.ob("copy|" + name, False, w, R_CPY, "the copy's bytes are not determined: %r" % (v,), undecided=True)
                continue
            H.ask("copy length|" + name, s, f_eq(b[2] - n), w, R_CPY, "the copy's length")
            j = H.int("usize", "j").l
            for s2 in within([s], f_and(f_le(j + 1 - n), f_eq(b[2] - n))):
                H.same_val("copy|" + name, s2, H._el(s2, b, j), H.at(s2, sb, j), w, R_CPY, "a byte of the copy")


def bytes_of(H, st, v, ti):
    """something H.arr can follow to the bytes of v, a value of type ti"""
    from .m01 import asref
    t = H.P.types[ti]
    if t["k"] == "param":
        return asref(H, st, v)
    return v if H.arr(st, v) is not None else None
