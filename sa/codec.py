"""Shared by C01, C02, C03: every history `container -> encoder/decoder -> one call that moves the cursor anywhere -> the call in
question`, run from unknown container contents, unknown lengths and unknown arguments."""
from .eq import *
from .hist import Hist
from . import bits, ai
from . import lin as L
from .lin import const, var

ENC = "util::coding::Encoder::<'a>::"
DEC = "util::coding::Decoder::<'a>::"
KINDS = (("vec", "with_vec"), ("buf", "with_buf"), ("slice", "with_slice"))


def encoders(c, tag, prefix=True, **opts):
    """-> list of (kind, Hist, [states], encoder pointer, container value, old length)"""
    out = []
    for kind, ctor in KINDS:
        H = Hist(c, "%s|%s" % (tag, kind), **opts)
        st = ai.State()
        k = c.need(ENC + ctor)
        if not k:
            return None
        ti = ty_of_arg(c.P, k, 0)
        cont = H.given(ti, "container")
        n0 = H.length(st, cont)
        r = H.call([st], ENC + ctor, [cont])
        sts = []
        for s, v in r:
            s, p = H.place(s, "enc", v)
            sts.append(s)
        if prefix:
            pv = H.given(H.argty(ENC + "put_buf", 1), "prefix")
            r = H.call(sts, ENC + "put_buf", [p, pv])
            sts = [s for s, v in r if H.vname(v) == "Ok"]
        if not c.anchor(sts, "an encoder over %s" % kind):
            continue
        out.append((kind, H, sts, p, cont, n0))
    return out


def decoders(c, tag, prefix=True, **opts):
    out = []
    for kind, ctor in KINDS:
        H = Hist(c, "%s|%s" % (tag, kind), **opts)
        st = ai.State()
        k = c.need(DEC + ctor)
        if not k:
            return None
        cont = H.given(ty_of_arg(c.P, k, 0), "container")
        sts = []
        for s, v in H.call([st], DEC + ctor, [cont]):
            s, p = H.place(s, "dec", v)
            sts.append(s)
        if prefix:
            sk = H.int("usize", "skip")
            r = H.call(sts, DEC + "skip", [p, sk])
            sts = [s for s, v in r if H.vname(v) == "Ok"]
        if not c.anchor(sts, "a decoder over %s" % kind):
            continue
        out.append((kind, H, sts, p, cont, H.length(sts[0], cont)))
    return out


def offset(H, st, p, base):
    r = H.call([st], base + "offset", [p])
    return r[0][1].l if len(r) == 1 and isinstance(r[0][1], VInt) else None


def classes(v, width, sts):
    """split the states by the number of 7-bit groups of v: [(groups, states)]"""
    out = []
    n = (width + 6) // 7
    for k in range(1, n + 1):
        lo, hi = (0 if k == 1 else 1 << (7 * (k - 1))), min((1 << (7 * k)) - 1, (1 << width) - 1)
        S = []
        for s in sts:
            for s1 in s.assume(f_le(const(lo) - v.l)):
                S += s1.assume(f_le(v.l - hi))
        out.append((k, S))
    return out


def ibits(E, st, v, w):
    return bits.Bits(E, st).val(v, w)


def group_bits(x, k, i):
    """byte i of the k-byte varint of the word x"""
    b = tuple(x[7 * i + j] if 7 * i + j < len(x) else bits.ZERO for j in range(7))
    return b + ((bits.ONE,) if i < k - 1 else (bits.ZERO,))


class Rec:
    """records obligations only for the property that asked"""

    def __init__(self, H, prop):
        self.H, self.prop = H, prop

    def ask(self, prop, *a, **k):
        return self.H.ask(*a, **k) if prop == self.prop else True

    def bits_eq(self, prop, *a, **k):
        return self.H.bits_eq(*a, **k) if prop == self.prop else True

    def same_val(self, prop, *a, **k):
        return self.H.same_val(*a, **k) if prop == self.prop else True

    def fail(self, prop, key, ok, where, rule, detail=""):
        return self.H.c.ob(key, ok, where, rule, detail) if prop == self.prop else True


R_FMT = "the bytes written are the format's encoding of the value"
R_CUR = "the cursor moves by exactly the bytes written or read"
R_ERR = "an error leaves cursor and contents unchanged"
R_FIT = "what fits is done, what does not fit is refused"
R_KEEP = "bytes outside the written range keep their value"


def within(sts, *fs):
    for f in fs:
        sts = [y for s in sts for y in s.assume(f)]
    return sts


def put_case(c, prop, kind, H, sts, p, cont, fn, args, n, spec, tag, unchecked=False):
    """run one put from `sts` (which fix what is written: n bytes, spec(H, state, i) the bits of byte i, or None)"""
    R = Rec(H, prop)
    P = c.P
    key = c.need(ENC + fn)
    w = P.where(key)
    base = "%s|%s|%s" % (fn, kind, tag)
    E = H.E
    for st in sts:
        o = offset(H, st, p, ENC)
        len0 = H.length(st, cont)
        if o is None or len0 is None:
            H.c.ob("entry|" + base, False, w, "entry state", "offset or length not determined", undecided=True)
            continue
        fits = f_le(o + n - len0)
        if unchecked and kind != "vec":
            starts = within([st], fits)
        else:
            starts = [st]
        for s0 in starts:
            for s, v in H.call([s0], ENC + fn, [p] + args):
                vn = "Ok" if unchecked else H.vname(v)
                o2, len1 = offset(H, s, p, ENC), H.length(s, cont)
                j = H.int("usize", "j").l
                if o2 is None or len1 is None:
                    H.c.ob("exit|" + base, False, w, "exit state", "offset or length not determined", undecided=True)
                    continue
                if vn == "Err":
                    R.ask("C03", "errcur|" + base, s, f_eq(o2 - o), w, R_ERR, "the cursor after an error")
                    R.ask("C03", "errlen|" + base, s, f_eq(len1 - len0), w, R_ERR, "the length after an error")
                    for s2 in within([s], f_le(j + 1 - len0)):
                        R.same_val("C03", "errkeep|" + base, s2, H.at(s2, cont, j), H.was(s2, s0, cont, j), w, R_ERR, "a byte after an error")
                    if kind == "vec":
                        R.fail("C01", "fit|" + base, False, w, R_FIT, "a vector grows, yet the operation reports an error")
                    else:
                        R.ask("C01", "fit|" + base, s, f_not(fits), w, R_FIT, "a value that fits is refused")
                elif vn == "Ok":
                    if kind != "vec" and not unchecked:
                        R.ask("C01", "nofit|" + base, s, fits, w, R_FIT, "a value that does not fit is accepted")
                    R.ask("C03", "cur|" + base, s, f_eq(o2 - o - n), w, R_CUR, "the cursor")
                    if kind != "vec":
                        R.ask("C01", "len|" + base, s, f_eq(len1 - len0), w, R_KEEP, "the container's length")
                    else:
                        for s2 in within([s], f_le(o + n - len0)):
                            R.ask("C01", "len|" + base, s2, f_eq(len1 - len0), w, R_KEEP, "the vector's length")
                        for s2 in within([s], f_le(len0 + 1 - o - n)):
                            R.ask("C01", "len|" + base, s2, f_eq(len1 - o - n), w, R_KEEP, "the vector's length")
                    spec(R, "fmt|" + base, s, o, w)
                    for name, fs in (("before", [f_le(j + 1 - o)]), ("after", [f_le(o + n - j), f_le(j + 1 - len0)])):
                        for s2 in within([s], *fs):
                            R.same_val("C01", "keep|%s|%s" % (name, base), s2, H.at(s2, cont, j), H.was(s2, s0, cont, j), w, R_KEEP, "a byte %s the written range" % name)
                else:
                    H.c.ob("exit|" + base, False, w, "exit state", "result is neither Ok nor Err", undecided=True)


def value_spec(H, cont, v, w, k, var7):
    def spec(R, key, s, o, where):
        try:
            x = ibits(H.E, s, v, w)
        except bits.NoBits:
            return
        for i in range(k):
            b = H.at(s, cont, o + i)
            sp = group_bits(x, k, i) if var7 else x[8 * i:8 * i + 8]
            R.bits_eq("C02", "%s|byte%d" % (key, i), s, b, sp, where, R_FMT, "byte %d" % i)
    return spec


def buf_spec(H, cont, src, hdr, x, k):
    """k header bytes (groups of x), then the bytes of src"""
    def spec(R, key, s, o, where):
        for i in range(k):
            R.bits_eq("C02", "%s|byte%d" % (key, i), s, H.at(s, cont, o + i), group_bits(x(s), k, i), where, R_FMT, "length byte %d" % i)
        j = H.int("usize", "j").l
        n = H.length(s, src)
        for s2 in within([s], f_le(j + 1 - n)):
            R.same_val("C02", "%s|content" % key, s2, H.at(s2, cont, o + k + j), H.at(s2, src, j), where, R_FMT, "a byte of the data")
    return spec


def encoder_cases(c, prop):
    P = c.P
    for fn, w in (("put_fixed32", 32), ("put_fixed64", 64), ("uncheck_put_fixed32", 32), ("uncheck_put_fixed64", 64)):
        for kind, H, sts, p, cont, n0 in encoders(c, fn) or []:
            v = H.int("u%d" % w, "value")
            put_case(c, prop, kind, H, sts, p, cont, fn, [v], w // 8, value_spec(H, cont, v, w, w // 8, False), "", fn.startswith("un"))
            yield H
    for fn, w in (("put_varint32", 32), ("put_varint64", 64), ("uncheck_put_varint32", 32), ("uncheck_put_varint64", 64)):
        for kind, H, sts, p, cont, n0 in encoders(c, fn, unroll=14) or []:
            v = H.int("u%d" % w, "value")
            for k, S in classes(v, w, sts):
                put_case(c, prop, kind, H, S, p, cont, fn, [v], k, value_spec(H, cont, v, w, k, True), "%d groups" % k, fn.startswith("un"))
            yield H
    for fn in ("put_buf", "uncheck_put_buf"):
        for kind, H, sts, p, cont, n0 in encoders(c, fn) or []:
            src = H.given(H.argty(ENC + fn, 1), "data")
            n = H.length(sts[0], src)
            put_case(c, prop, kind, H, sts, p, cont, fn, [src], n, buf_spec(H, cont, src, False, None, 0), "", fn.startswith("un"))
            yield H
    for fn in ("put_length_prefixed_slice", "uncheck_put_length_prefixed_slice"):
        for kind, H, sts, p, cont, n0 in encoders(c, fn, unroll=14) or []:
            src = H.given(H.argty(ENC + fn, 1), "data")
            n = H.length(sts[0], src)
            sz = VInt(n)
            for k, S in classes(sz, 32, sts):
                put_case(c, prop, kind, H, S, p, cont, fn, [src], n + k, buf_spec(H, cont, src, True, lambda s: ibits(H.E, s, sz, 32), k), "%d groups" % k, fn.startswith("un"))
            yield H
    # the length function
    H = Hist(c, "varint_length", unroll=14)
    key = c.need("util::coding::varint_length")
    v = H.int("u64", "value")
    for k, S in classes(v, 64, [ai.State()]):
        for s, r in H.call(S, "util::coding::varint_length", [v]):
            if prop == "C02":
                H.ask("length|%d groups" % k, s, f_eq(r.l - k), P.where(key), "the length function counts the 7-bit groups", "the reported length")
    yield H


def get_case(c, prop, kind, H, sts, p, cont, fn, args, n, check, tag, unchecked=False, must_err=False, free=False):
    R = Rec(H, prop)
    key = c.need(DEC + fn)
    w = c.P.where(key)
    base = "%s|%s|%s" % (fn, kind, tag)
    for st in sts:
        d = offset(H, st, p, DEC)
        lim = H.call([st], DEC + "limit", [p])[0][1].l
        fits = f_le(d + n - lim) if n is not None else T
        starts = within([st], fits) if unchecked else [st]
        for s0 in starts:
            for s, v in H.call([s0], DEC + fn, [p] + args):
                vn = "Ok" if unchecked else H.vname(v)
                d2 = offset(H, s, p, DEC)
                if vn is None or d2 is None:
                    H.c.ob("exit|" + base, False, w, "exit state", "result not determined", undecided=True)
                    continue
                if vn == "Err":
                    R.ask("C03", "errcur|" + base, s, f_eq(d2 - d), w, R_ERR, "the cursor after an error")
                    if not must_err and not free:
                        R.ask("C01", "fit|" + base, s, f_not(fits), w, R_FIT, "an input that is long enough is refused")
                else:
                    R.ask("C01", "inside|" + base, s, f_le(d2 - lim), w, "the cursor never passes the limit", "the cursor after success")
                    if must_err:
                        R.fail("C01", "nofit|" + base, not s.feasible(), w, R_FIT, "an input that is too short is accepted")
                        continue
                    if free:
                        continue
                    if not unchecked:
                        R.ask("C01", "nofit|" + base, s, fits, w, R_FIT, "an input that is too short is accepted")
                    R.ask("C03", "cur|" + base, s, f_eq(d2 - d - n), w, R_CUR, "the cursor")
                    r = v if unchecked else v.fs[0]
                    check(R, "val|" + base, s, d, r, w)


def byte_vals(H, s, cont, d, n):
    return [H.at(s, cont, d + i) for i in range(n)]


def decoder_cases(c, prop):
    P = c.P

    def fixed(H, cont, w):
        def check(R, key, s, d, r, where):
            try:
                spec = ()
                for i in range(w // 8):
                    spec += ibits(H.E, s, H.at(s, cont, d + i), 8)
            except bits.NoBits:
                return
            R.bits_eq("C02", key, s, r, spec, where, "the value read is the format's decoding of the bytes", "the decoded value")
        return check

    def content(H, cont, ln, skip=0):
        def check(R, key, s, d, r, where):
            n = H.length(s, r)
            if n is None:
                H.c.ob(key, False, where, R_FMT, "returned data not determined", undecided=True)
                return
            R.ask("C02", key + "|len", s, f_eq(n - ln), where, "the data returned is the data in the input", "the length of the data")
            j = H.int("usize", "j").l
            for s2 in within([s], f_le(j + 1 - n)):
                R.same_val("C02", key + "|content", s2, H.at(s2, r, j), H.at(s2, cont, d + skip + j), where, "the data returned is the data in the input", "a byte of the data")
        return check

    for fn, w in (("get_fixed32", 32), ("get_fixed64", 64), ("uncheck_get_fixed32", 32), ("uncheck_get_fixed64", 64)):
        for kind, H, sts, p, cont, n0 in decoders(c, fn) or []:
            get_case(c, prop, kind, H, sts, p, cont, fn, [], w // 8, fixed(H, cont, w), "", fn.startswith("un"))
            yield H

    def tops(H, S, bs, k):
        """the first k bytes have their top bit set: their quotient by 128 is 1"""
        out = []
        for s in S:
            for b in bs[:k]:
                s, r = H.E.divc(s, b.l, 128)
                t = s.assume(f_eq(r - 1))
                s = t[0] if t else s
            out.append(s)
        return out

    def vclasses(H, S, cont, w, p):
        """(k, states in which the varint at the cursor has k groups and is complete), then truncated ones"""
        n = (w + 6) // 7
        out = []
        for st in S:
            d = offset(H, st, p, DEC)
            lim = H.call([st], DEC + "limit", [p])[0][1].l
            bs = byte_vals(H, st, cont, d, n)
            if not all(isinstance(b, VInt) for b in bs):
                continue
            for k in range(1, n + 1):
                f = [f_le(const(128) - bs[i].l) for i in range(k - 1)]
                last = 127 if k < n else (1 << (w - 7 * (n - 1))) - 1
                out.append((k, tops(H, within([st], *f, f_le(bs[k - 1].l - last), f_le(d + k - lim)), bs, k - 1), bs, d))
            for k in range(0, n):
                f = [f_le(const(128) - bs[i].l) for i in range(k)]
                out.append((-k, tops(H, within([st], *f, f_eq(d + k - lim)), bs, k), bs, d))
        return out

    for fn, w in (("get_varint32", 32), ("get_varint64", 64), ("uncheck_get_varint32", 32), ("uncheck_get_varint64", 64)):
        un = fn.startswith("un")
        for kind, H, sts, p, cont, n0 in decoders(c, fn, unroll=14) or []:
            for k, S, bs, d in vclasses(H, sts, cont, w, p):
                if k > 0:
                    def check(R, key, s, d, r, where, k=k, bs=bs):
                        if R.prop != "C02":
                            return
                        n = const(0)
                        for i in range(k):
                            n = n + (bs[i].l - (128 if i < k - 1 else 0)).mul(1 << (7 * i))
                        rule = "the value read is the format's decoding of the bytes"
                        if isinstance(r, VInt) and s.holds(f_eq(r.l - n)):
                            R.fail("C02", key, True, where, rule)
                            return
                        spec = ()
                        try:
                            for i in range(k):
                                spec += ibits(H.E, s, bs[i], 8)[:7]
                        except bits.NoBits:
                            return
                        spec = (spec + (bits.ZERO,) * w)[:w]
                        R.bits_eq("C02", key, s, r, spec, where, "the value read is the format's decoding of the bytes", "the decoded value")
                    get_case(c, prop, kind, H, S, p, cont, fn, [], k, check, "%d groups" % k, un)
                elif not un:
                    get_case(c, prop, kind, H, S, p, cont, fn, [], None, None, "cut after %d" % -k, False, must_err=True)
            if not un:
                get_case(c, prop, kind, H, sts, p, cont, fn, [], None, None, "any bytes", free=True)
            yield H
    for fn in ("get_buf", "uncheck_get_buf"):
        for kind, H, sts, p, cont, n0 in decoders(c, fn) or []:
            n = H.int("usize", "n")
            get_case(c, prop, kind, H, sts, p, cont, fn, [n], n.l, content(H, cont, n.l), "", fn.startswith("un"))
            yield H
    for fn in ("get_length_prefixed_slice", "uncheck_get_length_prefixed_slice"):
        un = fn.startswith("un")
        for kind, H, sts, p, cont, n0 in decoders(c, fn, unroll=14) or []:
            for k, S, bs, d in vclasses(H, sts, cont, 32, p):
                if k > 0:
                    n = const(0)
                    for i in range(k):
                        n = n + (bs[i].l - (128 if i < k - 1 else 0)).mul(1 << (7 * i))
                    get_case(c, prop, kind, H, S, p, cont, fn, [], n + k, content(H, cont, n, k), "%d groups" % k, un)
                elif not un:
                    get_case(c, prop, kind, H, S, p, cont, fn, [], None, None, "cut after %d" % -k, False, must_err=True)
            if not un:
                get_case(c, prop, kind, H, sts, p, cont, fn, [], None, None, "any bytes", free=True)
            yield H
    for kind, H, sts, p, cont, n0 in decoders(c, "skip", prefix=False) or []:
        n = H.int("usize", "n")

        def check(R, key, s, d, r, where):
            R.ask("C03", key, s, f_eq(r.l - d - n.l), where, R_CUR, "the position skip returns")
        for s0 in sts:
            for s1, v in H.call([s0], DEC + "skip", [p, H.int("usize", "skip")]):
                if H.vname(v) == "Ok":
                    get_case(c, prop, kind, H, [s1], p, cont, "skip", [n], n.l, check, "")
                    if prop == "C03":
                        for s2, v2 in H.call([s1], DEC + "can_get", [p]):
                            d = offset(H, s2, p, DEC)
                            lim = H.call([s2], DEC + "limit", [p])[0][1].l
                            w = P.where(c.need(DEC + "can_get"))
                            f = f_le(d + 1 - lim)
                            for s3 in s2.assume(v2.f):
                                H.ask("can_get|%s|true" % kind, s3, f, w, "input remains exactly while the cursor is before the limit")
                            for s3 in s2.assume(f_not(v2.f)):
                                H.ask("can_get|%s|false" % kind, s3, f_not(f), w, "input remains exactly while the cursor is before the limit")
        yield H
    # a decoder made from an encoder reads what was written, from the start
    for kind, H, sts, p, cont, n0 in encoders(c, "create_decoder") or []:
        for s in sts:
            ln = H.length(s, cont)
            for s1, v in H.call([s], ENC + "create_decoder", [p]):
                s1, q = H.place(s1, "dec", v)
                w = P.where(c.need(DEC + "from_encoder"))
                n = H.int("usize", "n")
                lim = H.call([s1], DEC + "limit", [q])[0][1].l
                if prop == "C03":
                    H.ask("fresh|cursor|" + kind, s1, f_eq(offset(H, s1, q, DEC)), w, "a decoder starts at the first byte", "the cursor of a fresh decoder")
                if prop == "C01":
                    H.ask("fresh|limit|" + kind, s1, f_le(lim - ln), w, "the limit is not behind the end of the data", "the limit of a fresh decoder")
                get_case(c, prop, kind, H, [s1], q, cont, "get_buf", [n], n.l, content(H, cont, n.l), "of create_decoder")
        yield H


def run(c, prop):
    hs = []
    for g in (encoder_cases(c, prop), decoder_cases(c, prop)):
        for H in g:
            hs.append(H)
    cnt = dict(histories=len(hs), steps=sum(H.E.steps for H in hs))
    if prop == "C01":
        for H in hs:
            c.engine_obls(H.E, rule="no access outside the object, no wrap-around, no panic, for any offset, length and content")
    else:
        for H in hs:
            c.functions |= set(H.E.inlined)
    c.extra["counts"] = cnt
