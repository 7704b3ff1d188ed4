"""M02: LookupKey's bytes, from every user key and sequence number, by abstract interpretation of the history
`LookupKey::new -> mem_table_key / internal_key`; byte equalities in bit form."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from ..codec import classes, group_bits, within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
LK = "db::db_format::LookupKey::"
PACK = "db::db_format::pack_sequence_and_type"
R_LAY = "a lookup key is varint32(user key length + 8), the user key, 8 bytes of sequence << 8 | type"
R_PART = "the memtable key is the whole key, the internal key everything after the length prefix"
R_OK = "a key of fewer than 2^32 - 8 bytes and a sequence number up to 2^56 - 1 are always accepted"
R_SEQ = "a sequence number above 2^56 - 1 is never packed"
MAXSEQ = (1 << 56) - 1


def seq_bits(H, s, q, ty):
    x = bits.Bits(H.E, s).val(q, 64)
    t = tuple(bits.ONE if ty >> i & 1 else bits.ZERO for i in range(8))
    return t + x[:56]


def run(c):
    P = c.P
    if not c.need(LK + "new"):
        return
    w = P.where(P.one(LK + "new"))
    H = Hist(c, "lookup_key", unroll=14)
    E = H.E
    uk = H.given(H.argty(LK + "new", 0), "user_key")
    q = H.int("usize", "sequence")
    st = ai.State()
    n = H.length(st, uk)
    if not c.anchor(n is not None, "the user key's length"):
        return
    size = H.int("u32", "size")
    starts = within([st], f_eq(n + 8 - size.l))
    H.watch()
    for k, S in classes(size, 32, starts):
        # panics the code announces (an over-long key, a too large sequence number) end the path before anything is returned
        for s, v in H.call(S, LK + "new", [uk, q]):
            tag = "%d groups" % k
            H.ask("seq|new|" + tag, s, f_le(q.l - MAXSEQ), w, R_SEQ, "a key is built")
            for s2, m in H.call(*keyed(H, s, v, LK + "mem_table_key")):
                layout(c, H, s2, m, uk, n, q, k, "mem_table_key|" + tag, w, True)
            for s2, m in H.call(*keyed(H, s, v, LK + "internal_key")):
                layout(c, H, s2, m, uk, n, q, k, "internal_key|" + tag, w, False)
        H.nofail("ok|new|%d groups" % k, f_le(q.l - MAXSEQ), w, R_OK)
    c.functions |= set(E.inlined)
    pack(c)


def keyed(H, s, v, fn):
    s, p = H.place(s, "key", v)
    return [s], fn, [p]


def layout(c, H, s, m, uk, n, q, k, tag, w, whole):
    E = H.E
    h = k if whole else 0
    ln = H.length(s, m)
    if ln is None:
        c.ob("len|" + tag, False, w, R_PART, "the result's bytes are not determined", undecided=True)
        return
    H.ask("len|" + tag, s, f_eq(ln - n - h - 8), w, R_PART, "the length")
    s1 = within([s], f_eq(ln - n - h - 8))
    for s in s1:
        x = bits.Bits(E, s).val(H.int("u32", "size"), 32)
        for i in range(h):
            H.bits_eq("hdr%d|%s" % (i, tag), s, H.at(s, m, const(i)), group_bits(x, k, i), w, R_LAY, "length byte %d" % i)
        j = H.int("usize", "j").l
        for s2 in within([s], f_le(j + 1 - n)):
            H.same_val("key|" + tag, s2, H.at(s2, m, j + h), H.at(s2, uk, j), w, R_LAY, "a byte of the user key")
        sp = seq_bits(H, s, q, 1)
        for i in range(8):
            H.bits_eq("seq%d|%s" % (i, tag), s, H.at(s, m, n + h + i), sp[8 * i:8 * i + 8], w, R_LAY, "byte %d of the packed sequence number" % i)


def pack(c):
    P = c.P
    if not c.need(PACK):
        return
    w = P.where(P.one(PACK))
    H = Hist(c, "pack")
    q = H.int("usize", "sequence")
    ti = H.argty(PACK, 1)
    for vi, nm in enumerate(("KTypeDeletion", "KTypeValue")):
        v = variant(H, ti, nm)
        if not c.anchor(v is not None, "ValueType::" + nm):
            continue
        H.watch()
        rs = H.call([ai.State()], PACK, [q, v])
        H.nofail("ok|pack|" + nm, f_le(q.l - MAXSEQ), w, R_OK)
        for s, r in rs:
            H.ask("seq|pack|" + nm, s, f_le(q.l - MAXSEQ), w, R_SEQ, "a number is packed")
            for s1 in within([s], f_le(q.l - MAXSEQ)):
                H.bits_eq("pack|" + nm, s1, r, seq_bits(H, s1, q, vi), w, R_LAY, "the packed number")


def variant(H, ti, name):
    t = H.P.types[ti]
    a = H.P.adts.get(t["def"]) if "def" in t else None
    if not a:
        return None
    for i, v in enumerate(a["variants"]):
        if v["name"] == name:
            return VEnum(ti, i, ())
    return None
