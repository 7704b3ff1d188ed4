"""M01: the bytes of a memtable entry.  `MemTable::add` is interpreted from every key, value, sequence number and type; the
insertion into the list is cut off where the entry is handed over, and the entry's bytes are compared in bit form."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from ..codec import classes, group_bits, within
from .m02 import variant, seq_bits, MAXSEQ
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
ADD = "db::mem_table::MemTable::<Cmp>::add"
INS = "db::skip_list::SkipList::<Cmp>::insert"
R_LAY = "an entry is varint32(user key length + 8), the user key, 8 bytes of sequence << 8 | type, varint32(value length), the value"
R_LEN = "the memory of an entry is exactly the bytes written"
R_ONE = "a successful add hands over exactly one entry"
R_OK = "an entry that can be stored is stored"


def run(c):
    P = c.P
    if not c.need(ADD) or not c.need(INS):
        return
    w = P.where(P.one(ADD))
    for vi, nm in enumerate(("KTypeDeletion", "KTypeValue")):
        for kk in range(1, 6):
            for kv in range(1, 6):
                if c.tier == "quick" and kk > 2 and kv > 2 and not (kk == 5 and kv == 5):
                    continue
                one(c, w, vi, nm, kk, kv)


def one(c, w, vi, nm, kk, kv):
    P = c.P
    tag = "%s|key %d|value %d" % (nm, kk, kv)
    got = []

    def insert(E, st, fr, a, ci):
        st = st.copy()
        st.ghost["ins"] = st.ghost.get("ins", ()) + (len(got),)
        got.append((st, a[1]))
        return [(st, E.mk(ci["dty"], ai.nm("insert result", len(got))))]

    H = Hist(c, "add|" + tag, models={INS: insert}, unroll=14)
    E = H.E
    fn = P.fns[P.one(ADD)]
    ts = [fn["locals"][i + 1][0] for i in range(fn["argc"])]
    me, q, ty, key, val = H.given(ts[0], "table"), H.int("usize", "sequence"), variant(H, ts[2], nm), H.given(ts[3], "key"), H.given(ts[4], "value")
    if not c.anchor(ty is not None, "ValueType::" + nm):
        return
    st = ai.State()
    # the two byte strings, as AsRef gives them
    kb = asref(H, st, key)
    vb = asref(H, st, val)
    n, m = H.length(st, kb), H.length(st, vb)
    if not c.anchor(n is not None and m is not None, "key and value bytes"):
        return
    ks, vs = H.int("u32", "key size"), VInt(m)
    starts = within([st], f_eq(n + 8 - ks.l))
    starts = [s for k, S in classes(ks, 32, starts) if k == kk for s in S]
    starts = [s for k, S in classes(vs, 32, starts) if k == kv for s in S]
    H.watch()
    rs = H.call(starts, ADD, [me, q, ty, key, val])
    # locks that another thread left poisoned, and the arena's own limits, are not this property's business
    H.nofail("ok|" + tag, f_le(q.l - MAXSEQ), w, R_OK, skip=lambda kind, what, f: "Arena" in f or "arena" in f or "unwrap_failed" in what)
    for s, r in rs:
        ins = s.ghost.get("ins", ())
        v = H.vname(r)
        if len(ins) > 1:
            H.c.ob("one|" + tag, False, w, R_ONE, "%d entries are handed over" % len(ins), undecided=bool(s.ghost.get("havoc")))
        elif not ins and v == "Ok":
            H.ask("one|" + tag, s, F, w, R_ONE, "no entry is handed over, yet add succeeds")
        elif not ins and v == "Err":
            H.ask("one|" + tag, s, F, w, R_OK, "no entry is handed over")
        elif not ins:
            H.c.ob("one|" + tag, False, w, R_ONE, "result unknown", undecided=True)
        else:
            H.c.ob("one|" + tag, True, w, R_ONE)
    if not got:
        return c.ob("layout|" + tag, False, w, R_LAY, "no entry reaches the list", undecided=True)
    for s, e in got:
        entry(H, s, e, kb, vb, n, m, q, vi, kk, kv, tag, w)
    c.functions |= set(E.inlined)


def asref(H, st, p):
    E = H.E
    r = E.model_for(("std::convert::AsRef::as_ref",))
    fr = None
    t = [i for i, x in enumerate(E.T) if x["s"] == "&[u8]"][0]
    out = r(E, st, fr, [p], {"dty": t, "atys": []})
    return out[0][1]


def entry(H, s, e, kb, vb, n, m, q, vi, kk, kv, tag, w):
    E = H.E
    b = bytes_of(H, s, e)
    if b is None:
        return H.c.ob("layout|" + tag, False, w, R_LAY, "the entry's bytes are not determined", undecided=True)
    total = n + m + 8 + kk + kv
    H.ask("len|" + tag, s, f_eq(b[2] - total), w, R_LEN, "the entry's length")
    at = lambda st, i: H._el(st, b, i)
    for s in within([s], f_eq(b[2] - total)):
        kx, vx = bits.Bits(E, s).val(VInt(n + 8), 32), bits.Bits(E, s).val(VInt(m), 32)
        for i in range(kk):
            H.bits_eq("klen%d|%s" % (i, tag), s, at(s, const(i)), group_bits(kx, kk, i), w, R_LAY, "key length byte %d" % i)
        for i in range(kv):
            H.bits_eq("vlen%d|%s" % (i, tag), s, at(s, n + kk + 8 + i), group_bits(vx, kv, i), w, R_LAY, "value length byte %d" % i)
        sp = seq_bits(H, s, q, vi)
        for i in range(8):
            H.bits_eq("seq%d|%s" % (i, tag), s, at(s, n + kk + i), sp[8 * i:8 * i + 8], w, R_LAY, "byte %d of sequence and type" % i)
        j = H.int("usize", "j").l
        for s2 in within([s], f_le(j + 1 - n)):
            H.same_val("key|" + tag, s2, at(s2, j + kk), H.at(s2, kb, j), w, R_LAY, "a byte of the user key")
        for s2 in within([s], f_le(j + 1 - m)):
            H.same_val("value|" + tag, s2, at(s2, j + n + kk + 8 + kv), H.at(s2, vb, j), w, R_LAY, "a byte of the value")


def bytes_of(H, st, e):
    """(array, start, length) of an UnsafeSlice value"""
    s, p = H.place(st, "entry", e)
    q = H.E.quiet
    H.E.quiet = True
    rs = H.call([s], "<util::unsafe_slice::UnsafeSlice as std::convert::AsRef<[u8]>>::as_ref", [p])
    H.E.quiet = q
    if len(rs) != 1:
        return None
    return H.arr(rs[0][0], rs[0][1])
