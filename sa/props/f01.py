"""F01: the filter block against its format.

Histories of start_block, add_key and finish are run by the abstract interpreter over an unknown policy: every filter it makes is a
byte string of unknown length and content.  The keys each call of the policy receives are compared with the keys added since the
previous filter; the finished block is compared with the filters in order, one little-endian start offset per filter, the position of
the offset array and the base shift."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
FB = "<table::filter_block::FilterBlockBuilder as table::filter_block::FilterBlock>::"
R_KEYS = "each key added is passed once, unchanged and in order, to the filter of its block"
R_LEN = "the block is the filters, 4 bytes per filter, 4 bytes and 1 byte"
R_FIL = "filter bytes appear unchanged, in order"
R_OFF = "each offset is the start of its filter, little endian"
R_ARR = "after the offsets comes the position of the offset array"
R_LG = "the last byte is the base shift"
R_OK = "no operation fails on increasing block offsets"
BASE = 2048


def console(kind, what, fn):
    """the debug! macro unwraps the result of writing to the console"""
    return "unwrap_failed" in what


def run(c):
    P = c.P
    for f in ("new_with_policy", "start_block", "add_key", "finish"):
        if not c.need(FB + f):
            return
    H = setup(c)
    quick = c.tier == "quick"
    # a history: keys and advances of the block number
    hs = [("f",), ("k", "f"), ("k", "k", "f"), ("k", "s1", "f"), ("s1", "k", "f"), ("k", "s1", "k", "f"), ("k", "s2", "k", "k", "f"),
          ("s0", "k", "s0", "k", "s1", "k", "f"), ("k", "s1", "s0", "s2", "k", "f"), ("s3", "f"), ("k", "k", "s1", "s1", "k", "s1", "f"), ("f0", "f"), ("k", "f", "k", "f")]
    if not quick:
        hs += [("k", "s3", "k", "s1", "k", "k", "s2", "f"), ("k", "k", "k", "s1", "k", "k", "s1", "k", "f"), ("s1", "k", "s4", "k", "k", "f")]
    hs = [h for h in hs if "f0" not in h and h.count("f") == 1]
    for h in hs:
        history(c, H, h)
    c.functions |= set(H.E.inlined)
    c.extra["histories"] = [" ".join(h) for h in hs]


def setup(c):
    calls = []

    def create(E, st, fr, a, ci):
        v = a[-1]
        i = len(calls)
        n = var(E.usym(ai.nm("given", "filter length", i)))
        u8 = E.intty("u8")
        o = ("deref", ai.nm("given", "filter", i))
        st = st.copy()
        st = (st.assume(f_and(f_le(-n), f_le(n - 65536))) or [st])[0].copy()
        st.mem[o] = VArr(u8, n, (), ai.nm("given", "filter bytes", i))
        r = slice_of(E, ci["dty"], o, n)
        calls.append((st, v, (o, n), a))
        st.ghost["filters"] = st.ghost.get("filters", ()) + (i,)
        return [(st, r)]
    m = {"traits::filter_policy_trait::FilterPolicy::create_filter": create, "traits::filter_policy_trait::FilterPolicy::create_filter_with_len": create}
    H = Hist(c, "filter", models=m, exact=True, unroll=24)
    H.E.MAXD = 400
    H.calls = calls
    return H


def slice_of(E, ti, o, n):
    """a value of type ti (Slice) over the bytes of o"""
    t = E.T[ti]
    if E.is_vec(ti):
        return VVec(ti, o, n, n)
    fs = []
    for x in t["vf"][0]:
        if E.is_vec(x) or (E.T[x]["k"] == "adt" and E.T[x].get("vf") and len(E.T[x]["vf"]) == 1):
            fs.append(slice_of(E, x, o, n))
        else:
            fs.append(E.mk(x, ai.nm("given", "slice field")))
    return VAgg(ti, tuple(fs))


def history(c, H, h):
    P = H.P
    W = lambda f: P.where(P.one(FB + f))
    tag = " ".join(h)
    del H.calls[:]
    st = ai.State()
    pol = H.given(ty_of_arg(P, P.one(FB + "new_with_policy"), 0), "policy")
    H.watch()
    sts = []
    for s, v in H.call([st], FB + "new_with_policy", [pol]):
        s, me = H.place(s, "builder " + tag, v)
        sts.append((s, me))
    H.nofail("ok|new", T, W("new_with_policy"), R_OK)
    keys = []          # values added
    groups = []        # keys of each filter; None: no filter is made, only its offset recorded
    pend = []
    q = 0
    kt = ty_of_arg(P, P.one(FB + "add_key"), 1)
    for i, op in enumerate(h[:-1]):
        nxt = []
        if op == "k":
            k = H.given(kt, "key %d" % i)
            keys.append(k)
            pend.append(k)
            for s, me in sts:
                n = H.length(s, k)
                if n is None:
                    return c.ob("keys|" + tag, False, W("add_key"), R_KEYS, "a key is not modelled", undecided=True)
                H.watch()
                nxt += [(x, me) for x, _ in H.call(within([s], f_le(n - 65536)), FB + "add_key", [me, k])]
                H.nofail("ok|add_key", T, W("add_key"), R_OK, tag)
        else:
            d = int(op[1:])
            q += d
            for _ in range(d):
                groups.append(pend if pend else None)
                pend = []
            off = H.int("u64", "offset %d" % i).l
            for s, me in sts:
                H.watch()
                nxt += [(x, me) for x, _ in H.call(within([s], f_and(f_le(const(q * BASE) - off), f_le(off - q * BASE - BASE + 1))), FB + "start_block", [me, VInt(off)])]
                H.nofail("ok|start_block", T, W("start_block"), R_OK, tag, skip=console)
        sts = nxt
    if pend:
        groups.append(pend)
    n = 0
    for s, me in sts:
        H.watch()
        rs = H.call([s], FB + "finish", [me])
        H.nofail("ok|finish", T, W("finish"), R_OK, tag, skip=console)
        for s1, r in rs:
            n += 1
            if H.vname(r) != "Ok":
                c.ob("ok|finish", False, W("finish"), R_OK, "%s: %s" % (tag, H.vname(r)), undecided=H.vname(r) is None or True)
                continue
            block(c, H, s1, r.fs[0], groups, tag, W("finish"))
    if not n:
        c.ob("done|" + tag, False, W("finish"), R_OK, "the history does not complete", undecided=True)


def block(c, H, s, v, groups, tag, w):
    hv = bool(s.ghost.get("havoc"))
    made = [H.calls[i] for i in s.ghost.get("filters", ())]
    want = [g for g in groups if g is not None]
    if len(made) != len(want):
        if hv:
            return c.ob("keys|" + tag, False, w, R_KEYS, "undetermined", undecided=True)
        return H.ask("keys|" + tag, s, F, w, R_KEYS, "%d filters are made, %d expected" % (len(made), len(want)))
    for (st, kv, f, a), g in zip(made, want):
        passed(c, H, s, st, kv, g, a, tag, w)
    fl = []
    it = iter(made)
    for g in groups:
        fl.append(next(it)[2] if g is not None else None)
    pos, starts = const(0), []
    for f in fl:
        starts.append(pos)
        if f is not None:
            pos = pos + f[1]
    b = H.arr(s, v)
    if b is None:
        return c.ob("len|" + tag, False, w, R_LEN, "the block is not determined", undecided=True)
    H.ask("len|" + tag, s, f_eq(b[2] - pos - 4 * len(fl) - 5), w, R_LEN, "the block's length")
    for s in within([s], f_eq(b[2] - pos - 4 * len(fl) - 5)):
        for i, f in enumerate(fl):
            if f is None:
                continue
            j = H.int("usize", "j").l
            for s2 in within([s], f_and(f_le(-j), f_le(j + 1 - f[1]))):
                H.same_val("filter|" + tag, s2, H._el(s2, b, starts[i] + j), H.E.elem(s2, H.E.obj(s2, f[0]), j), w, R_FIL, "a byte of filter %d" % i)
        for i, st in enumerate(starts + [pos]):
            sp = bits.Bits(H.E, s).val(VInt(st), 32) if not st.is_const() else None
            for k in range(4):
                got = H._el(s, b, pos + 4 * i + k)
                rule, what = (R_OFF, "byte %d of offset %d" % (k, i)) if i < len(fl) else (R_ARR, "byte %d of the array position" % k)
                key = ("offset|" if i < len(fl) else "array|") + tag
                if sp is None:
                    H.same_val(key, s, got, VInt(const(st.c >> 8 * k & 255)), w, rule, what)
                else:
                    H.bits_eq(key, s, got, sp[8 * k:8 * k + 8], w, rule, what)
        H.same_val("shift|" + tag, s, H._el(s, b, pos + 4 * len(fl) + 4), VInt(const(11)), w, R_LG)


def passed(c, H, s, st, kv, g, a, tag, w):
    """the keys the policy received"""
    E = H.E
    arr = E.obj(st, kv.o) if isinstance(kv, VVec) else None
    if not isinstance(arr, VArr):
        return c.ob("keys|" + tag, False, w, R_KEYS, "the keys passed are not determined", undecided=True)
    if len(a) > 2 and E.as_lin(a[1]) is not None:
        H.same_val("capacity|" + tag, st, a[1], VInt(const(len(g))), w, R_KEYS, "the number of keys told to the policy")
    H.ask("keys|" + tag, st, f_eq(kv.n - len(g)), w, R_KEYS, "the number of keys passed")
    for st in within([st], f_eq(kv.n - len(g))):
        for i, k in enumerate(g):
            x = E.elem(st, arr, const(i))
            xb, n = H.arr(st, x), H.length(st, k)
            if xb is None:
                c.ob("keys|" + tag, False, w, R_KEYS, "a key passed is not determined", undecided=True)
                continue
            H.ask("keys|" + tag, st, f_eq(xb[2] - n), w, R_KEYS, "the length of key %d" % i)
            j = H.int("usize", "j").l
            for s2 in within([st], f_and(f_and(f_le(-j), f_le(j + 1 - n)), f_eq(xb[2] - n))):
                H.same_val("keys|" + tag, s2, H._el(s2, xb, j), H.at(s2, k, j), w, R_KEYS, "a byte of key %d" % i)
