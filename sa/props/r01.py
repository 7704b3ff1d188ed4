"""The checksum is CRC-32C of exactly the bytes given.

The checksum function is run by the abstract interpreter on unknown bytes, an unknown initial checksum and every residue of the
address modulo 4, for every length up to a bound and the lengths around every constant the code compares lengths with.  The result is
an affine form over GF(2) of the input bits (the tables are constants; a table that is not linear has no such form) and is
compared with the affine form of CRC-32C computed from its definition.  Masking and the conversions are compared the same way."""
from ..eq import *
from ..hist import Hist
from .. import bits, ai
from .. import lin as L
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
POLY = 0x82F63B78
EXT = "util::crc::CRC::extend"
R_CRC = "the result is CRC-32C of the bytes, continuing from the initial value"
R_MASK = "masking rotates right by 15 and adds 0xa282ead8; unmasking undoes it"
R_BYTES = "the checksum is taken of exactly the value's bytes"


def crc_step(s, byte):
    s = list(s)
    for i in range(8):
        f = s[0] ^ byte[i]
        s = s[1:] + [bits.ZERO]
        for j in range(32):
            if POLY >> j & 1:
                s[j] = s[j] ^ f
    return s


def crc_spec(init, bs):
    s = [b ^ bits.ONE for b in init]
    for b in bs:
        s = crc_step(s, b)
    return tuple(b ^ bits.ONE for b in s)


def aligned(H, st, v, a):
    """the address of the bytes v designates is a modulo 4"""
    o = v.o
    s = L.sym(("n", ai.nm("addr", o, v.p[:-1])), 1, 2 ** 64 - 1)
    k = H.E.usym(ai.nm("addr/4", o))
    r = st.assume(f_eq(var(s) - var(k).mul(4) - a))
    for x in list(r):
        r = x.assume(f_le(var(k) - (1 << 60))) or r
    return r[0] if r else None


def consts(P, keys):
    """integer constants mentioned by the functions"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            c = x.get("c")
            if isinstance(c, dict) and "int" in c:
                try:
                    out.add(int(c["int"]))
                except (TypeError, ValueError):
                    pass
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    for k in keys:
        f = P.fns.get(k)
        if f and P.fns[k].get("local", True):
            walk([b for b in f["blocks"]])
    return out


def crc_result(c, H, sts, suffix, args, data, init, n, key, rule, prefix=()):
    """run and compare with the specification over the n bytes of data, from the word init"""
    w = c.P.where(c.need(suffix)) if c.P.one(suffix) else ""
    for s, v in H.call(sts, suffix, args):
        try:
            B = bits.Bits(H.E, s)
            bs = [B.val(H.at(s, data, const(i)), 8) for i in range(n)]
            ini = B.val(init, 32) if init is not None else (bits.ZERO,) * 32
        except bits.NoBits as e:
            c.ob(key, False, w, rule, str(e), undecided=True)
            continue
        H.bits_eq(key, s, v, crc_spec(ini, bs), w, rule, "%d bytes" % n)


def fixed_slice(H, suffix, i, n, tag="data"):
    v = H.given(H.argty(suffix, i), tag)
    ln = H.length(ai.State(), v)
    st = ai.State().assume(f_eq(ln - n))
    return (st[0] if st else None), v


def run(c):
    P = c.P
    key = c.need(EXT)
    if not key:
        return
    w = P.where(key)
    c.extra["counts"] = cnt = dict(lengths=0, runs=0)
    top = 40 if c.tier == "quick" else 130
    funs = set()

    def one(n, a):
        H = Hist(c, "extend", unroll=n + 80, loose=True)
        st, v = fixed_slice(H, EXT, 1, n)
        fat = v if isinstance(v, VFat) else H.E.read(st, v.o, v.p)
        st = aligned(H, st, fat, a)
        if st is None:
            return
        if n > 160:
            # the ends stay unknown, the middle is fixed
            x = H.E.obj(st, fat.o)
            if not isinstance(x, VArr):
                return
            st = st.copy()
            st.mem[fat.o] = VArr(x.ety, x.n, tuple((i, VInt(const((i * 167 + 13) & 255))) for i in range(24, n - 24)), x.base)
        init = H.int("u32", "init")
        cnt["runs"] += 1
        crc_result(c, H, [st], EXT, [init, v], v, init, n, "crc|%d bytes|address %d mod 4" % (n, a), R_CRC)
        funs.update(H.E.inlined)
        c.engine_obls(H.E, kinds=lambda k, d, f: k != "unreach", rule="no access outside the bytes, no panic")
    for n in range(top + 1):
        for a in range(4):
            one(n, a)
        cnt["lengths"] += 1
    extra = sorted({m for k in consts(P, funs) for m in (k - 1, k, k + 1, k + 3) if top < m <= (700 if c.tier == "quick" else 5000) and k < 256 and k not in (128, 127, 255, 254)
                    or top < m <= 5000 and k > 256})
    for n in extra[:10 if c.tier == "quick" else 60]:
        for a in (0, 3):
            one(n, a)
        cnt["lengths"] += 1
    cnt["extra_lengths"] = extra
    c.functions |= funs

    # the value function, and the conversions that have concrete bytes
    for suffix, i in (("util::crc::CRC::value", 0), ("<[u8] as util::crc::AsCrc>::as_crc_extend", 0), ("<&str as util::crc::AsCrc>::as_crc_extend", 0),
                      ("<util::slice::Slice as util::crc::AsCrc>::as_crc_extend", 0), ("<std::string::String as util::crc::AsCrc>::as_crc_extend", 0)):
        for n in (0, 1, 3, 21):
            if not c.need(suffix):
                break
            H = Hist(c, suffix, unroll=n + 80, loose=True)
            v = H.given(H.argty(suffix, i), "data")
            ln = H.length(ai.State(), v)
            if ln is None:
                c.ob("conv|%s" % suffix, False, "", R_BYTES, "the bytes of the argument are not determined", undecided=True)
                break
            for a in (0, 1):
                st = ai.State().assume(f_eq(ln - n))[0]
                f = H.arr(st, v)
                x = v
                while isinstance(x, (VPtr, VAgg, VOp)) and not isinstance(x, VFat):
                    x = H.E.read(st, x.o, x.p) if isinstance(x, VPtr) else (x.fs[0] if isinstance(x, VAgg) else H.E.expand(x))
                o = x.o
                st = aligned(H, st, VFat(o, (("i", const(0)),), const(n)) if not isinstance(x, VFat) else x, a)
                two = len(P.sigs.get(P.one(suffix), P.sigs.get(suffix, {})).get("inputs", [])) == 2 or P.fns[P.one(suffix)]["argc"] == 2
                init = H.int("u32", "init") if two else None
                crc_result(c, H, [st], suffix, [v] + ([init] if two else []), v, init, n, "conv|%s|%d bytes|%d" % (suffix, n, a), R_BYTES)
            c.functions |= set(H.E.inlined)

    # as_crc starts from zero; the generic carriers hand over all their bytes
    gen = [k for k in P.fns if "as util::crc::AsCrc>::as_crc_extend<" in k]
    c.anchor(gen, "AsCrc of generic carriers")
    for suffix in gen:
        got = []

        def m(E, st, fr, a, ci):
            got.append((st, a))
            return [(st, VInt(var(E.isym(ai.nm("crc", E.vkey(st, a[0]), E.vkey(st, a[1])), ci["dty"]))))]
        H = Hist(c, suffix, models={EXT: m, key: m})
        v = H.given(ty_of_arg(P, suffix, 0), "data")
        init = H.int("u32", "init")
        for s, r in H.call([ai.State()], suffix, [v, init]):
            if not got:
                c.ob("conv|" + suffix, False, P.where(suffix), R_BYTES, "no call of CRC::extend seen", undecided=True)
                break
            s1, a = got[-1]
            src = H.arr(s, v)
            d = a[1]
            wv = P.where(suffix)
            if not isinstance(d, VFat) or src is None:
                c.ob("conv|" + suffix, False, wv, R_BYTES, "the bytes handed over are not determined", undecided=True)
                continue
            H.ask("conv|%s|init" % suffix, s, f_eq(a[0].l - init.l), wv, R_BYTES, "the initial value handed over") if isinstance(a[0], VInt) else None
            x = v
            while not isinstance(x, (VFat, VVec)) and isinstance(x, (VPtr, VAgg)):
                x = H.E.read(s, x.o, x.p) if isinstance(x, VPtr) else x.fs[0]
            same = d.o == x.o
            c.ob("conv|%s|object" % suffix, same, wv, R_BYTES, "the bytes handed over belong to another object", undecided=not same)
            off = d.p[-1][1] if d.p else const(0)
            H.ask("conv|%s|start" % suffix, s, f_eq(off), wv, R_BYTES, "the first byte handed over")
            arr, _, ln = src
            es = H.E.size_of(arr.ety)
            es = const(es) if isinstance(es, int) else var(L.sym(("n", ai.nm("sizeof", P.types[arr.ety]["s"])), 0, 1 << 40))
            want = None
            if es is not None and es.is_const():
                want = ln.mul(es.c)
            else:
                s, want = H.E.arith(s, "Mul", es, ln, H.E.usz) if es is not None else (s, None)
            if want is None:
                c.ob("conv|%s|length" % suffix, False, wv, R_BYTES, "element size not known", undecided=True)
            else:
                H.ask("conv|%s|length" % suffix, s, f_eq(d.n - want), wv, R_BYTES, "the number of bytes handed over")
            if isinstance(r, VInt):
                H.ask("conv|%s|result" % suffix, s, f_eq(r.l - var(H.E.isym(ai.nm("crc", H.E.vkey(s1, a[0]), H.E.vkey(s1, a[1])), H.E.intty("u32")))), wv, R_BYTES, "the result")
        c.functions |= set(H.E.inlined)
    for suffix in [k for k in P.fns if k.startswith("util::crc::AsCrc::as_crc<")]:
        seen = []

        def m(E, st, fr, a, ci):
            seen.append(a)
            return [(st, E.mk(ci["dty"], ai.nm("crcx", tuple(E.vkey(st, x) for x in a))))]
        H = Hist(c, suffix, models={"re:as_crc_extend": m})
        v = H.given(ty_of_arg(P, suffix, 0), "value")
        for s, r in H.call([ai.State()], suffix, [v]):
            for a in seen[-1:]:
                if isinstance(a[1], VInt):
                    H.ask("as_crc|start", s, f_eq(a[1].l), P.where(suffix), "a checksum starts from zero", "the initial value")
            if isinstance(r, VInt) and seen:
                H.ask("as_crc|result", s, f_eq(r.l - H.E.mk(H.E.intty("u32"), ai.nm("crcx", tuple(H.E.vkey(s, x) for x in seen[-1]))).l), P.where(suffix), "a checksum starts from zero", "the result")
    c.anchor(any(k.startswith("util::crc::AsCrc::as_crc<") for k in P.fns), "AsCrc::as_crc")

    # masking
    def rot(x):
        return x[15:] + x[:15]
    for mk, un in (("util::crc::CRC::mask", "util::crc::CRC::unmask"), ("<u32 as util::crc::ToMask>::to_mask", "<u32 as util::crc::ToMask>::unmask")):
        if not c.need(mk) or not c.need(un):
            continue
        H = Hist(c, mk)
        x = H.int("u32", "crc")
        for s, v in H.call([ai.State()], mk, [x]):
            B = bits.Bits(H.E, s)
            try:
                xb = B.val(x, 32)
                r = rot(xb)
                terms = {}
                B.addterm(terms, r, 1, 32)
                H.bits_eq("mask|" + mk, s, v, B.total(terms, 0xA282EAD8, 32), P.where(P.one(mk)), R_MASK, "the masked value")
            except bits.NoBits as e:
                c.ob("mask|" + mk, False, "", R_MASK, str(e), undecided=True)
                continue
            for s2, u in H.call([s], un, [v]):
                H.bits_eq("unmask|" + un, s2, u, xb, P.where(P.one(un)), R_MASK, "unmask(mask(x))")
        c.functions |= set(H.E.inlined)
