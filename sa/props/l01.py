"""L01: slice operations address exactly the bytes their arguments name.

The abstract interpreter runs each operation on a slice of unknown length over an unknown array, with unknown range bounds: every
returned state must satisfy the range, the view must have the range's length and hold, at an unknown position, the byte of the
slice at that position; a request inside the slice must not fail.  For the mutable forms an unknown byte is written through the
view at an unknown position and read back through the slice."""
from ..eq import *
from ..dom import f_and as and2
from functools import reduce
from ..hist import Hist
from .. import ai
from ..codec import within
from ..lin import const, var
from .h01 import inner

LEVEL = "other"
CONFIRM = True
S = "util::slice::Slice::"
IX = "<util::slice::Slice as std::ops::Index<%s>>::index"
IM = "<util::slice::Slice as std::ops::IndexMut<%s>>::index_mut"
RG = {"Range": "std::ops::Range<usize>", "RangeFrom": "std::ops::RangeFrom<usize>", "RangeTo": "std::ops::RangeTo<usize>"}
US = "util::unsafe_slice::UnsafeSlice::"
R_LEN = "a view has the length of its range"
R_BYTE = "a view holds the bytes of its range"
R_OUT = "a request outside the slice panics"
R_OK = "a request inside the slice does not fail or touch other memory"
R_WR = "a byte written through a view is the slice's byte at that place, and no other"
R_ALL = "the whole contents are handed over"
TT = ("T",)
LIM = (1 << 63) - 1


def f_all(*fs):
    return reduce(and2, fs, TT)


def run(c):
    P = c.P
    for k in (S + "from_buf", S + "as_sub_ref", S + "remove_prefix", S + "merge", IX % "usize", US + "sub_slice", US + "to_slice"):
        if not c.need(k):
            return
    single(c)
    for r in RG:
        ranged(c, r, False)
        ranged(c, r, True)
    subs(c)
    whole(c)
    merge(c)
    unsafe(c)


class Bytes:
    """a slice over n unknown bytes"""

    def __init__(self, c, name, **kw):
        self.c = c
        self.H = H = Hist(c, name, exact=True, unroll=8, **kw)
        H.E.MAXD = 400
        self.u8 = H.E.intty("u8")
        self.n = H.int("usize", "length").l
        self.base = ai.nm("slice bytes")
        self.arr = VArr(self.u8, self.n, (), self.base)
        self.j = H.int("usize", "position").l
        self.name = name

    def fat(self):
        H = self.H
        st = ai.State()
        o = ("deref", ai.nm("slice bytes of", self.name))
        H.E.objty[o] = ("arr", self.u8)
        st.mem[o] = self.arr
        sts = within([st], f_le(self.n - LIM))
        return sts, VFat(o, (("i", const(0)),), self.n)

    def slice(self):
        sts, f = self.fat()
        out, p = [], None
        ti = ty_of_arg(self.H.P, self.H.P.one(S + "from_vec"), 0)
        x = self.H.given(ti, "vec of " + self.name)
        if not isinstance(x, VVec):
            return [], None
        for s in sts:
            # the slice's buffer may be larger than its contents
            for s in within([s], f_eq(x.n - self.n), f_le(x.n - x.cap)):
                s = s.copy()
                s.mem[x.o] = self.arr
                for s, v in self.H.call([s], S + "from_vec", [x]):
                    s, p = self.H.place(s, "slice", v)
                    out.append(s)
        return out, p

    def byte(self, s, i, arr=None):
        return self.H._el(s, (arr or self.arr, const(0), self.n), i)

    def view(self, key, s, v, at, n, w, rule=R_BYTE):
        """v designates n bytes of the array from `at`"""
        H, c = self.H, self.c
        l = H.length(s, v)
        if l is None:
            return c.ob("len|" + key, False, w, R_LEN, "the view is not modelled", undecided=True)
        H.ask("len|" + key, s, f_eq(l - n), w, R_LEN, "the length")
        for s2 in within([s], f_le(self.j + 1 - n), f_le(self.j + 1 - l)):
            H.same_val("bytes|" + key, s2, H.at(s2, v, self.j), self.byte(s2, at + self.j), w, rule, "the byte at an unknown position")

    def done(self, key, ok, w):
        fs = list(self.H.E.fails or [])
        self.H.nofail("ok|" + key, ok, w, R_OK)
        # a request outside may panic, but not touch memory
        self.H.E.fails = [f for f in fs if f[1] in ("oob", "rawview")]
        self.H.nofail("touch|" + key, TT, w, R_OUT)
        self.c.functions |= set(self.H.E.inlined)


def single(c):
    for mut in (False, True):
        k = (IM if mut else IX) % "usize"
        if k not in c.P.fns:
            continue
        b = Bytes(c, k)
        H, w = b.H, c.P.where(k)
        sts, p = b.slice()
        i = H.int("usize", "index").l
        H.watch()
        for s, v in H.call(sts, k, [p, VInt(i)]):
            H.ask("out|" + k, s, f_le(i + 1 - b.n), w, R_OUT, "index against length")
            x = H.E.read(s, v.o, v.p) if isinstance(v, VPtr) else None
            H.same_val("bytes|" + k, s, x, b.byte(s, i), w, R_BYTE, "the byte")
            if mut and isinstance(v, VPtr):
                written(b, k, s, p, v, i, w)
        b.done(k, f_le(i + 1 - b.n), w)


def written(b, k, s, p, v, i, w):
    """write through v, which designates the byte i, and read the slice back"""
    H = b.H
    x = H.int("u8", "written")
    s = s.copy()
    H.E.write(s, v.o, v.p, x)
    H.same_val("write|" + k, s, H.at(s, p, i), x, w, R_WR, "the byte read back")
    q = H.int("usize", "other").l
    for g in (f_le(q + 1 - i), f_le(i + 1 - q)):
        for s2 in within([s], g, f_le(q + 1 - b.n)):
            H.same_val("write other|" + k, s2, H.at(s2, p, q), b.byte(s2, q), w, R_WR, "another byte")


def rng(b, r):
    """(value, start, end, condition) for an unknown range of kind r"""
    H = b.H
    lo, hi = H.int("usize", "start").l, H.int("usize", "end").l
    fs = {"Range": (lo, hi), "RangeFrom": (lo,), "RangeTo": (hi,)}[r]
    a, z = (const(0) if r == "RangeTo" else lo), (b.n if r == "RangeFrom" else hi)
    return tuple(VInt(x) for x in fs), a, z, f_all(f_le(a - z), f_le(z - b.n))


def ranged(c, r, mut):
    k = (IM if mut else IX) % RG[r]
    if not c.need(k):
        return
    w = c.P.where(k)
    b = Bytes(c, k)
    H = b.H
    sts, p = b.slice()
    fs, a, z, ok = rng(b, r)
    ti = ty_of_arg(c.P, k, 1)
    H.watch()
    for s, v in H.call(sts, k, [p, VAgg(ti, fs)]):
        H.ask("out|" + k, s, ok, w, R_OUT, "the range")
        for s in s.assume(ok):
            b.view(k, s, v, a, z - a, w)
            if mut and isinstance(v, VFat):
                i = H.int("usize", "offset").l
                for s2 in within([s], f_le(i + 1 - v.n)):
                    t = v.p[-1][1] + i
                    written(b, k, s2, p, VPtr(v.o, v.p[:-1] + (("i", s2.norm(t)),)), s2.norm(a + i), w)
    b.done(k, ok, w)


def subs(c):
    k = S + "as_sub_ref"
    b = Bytes(c, k)
    H, w = b.H, c.P.where(c.P.one(k))
    sts, p = b.slice()
    a, n = H.int("usize", "start").l, H.int("usize", "sub length").l
    ok = f_le(a + n - b.n)
    H.watch()
    for s, v in H.call(sts, k, [p, VInt(a), VInt(n)]):
        H.ask("out|" + k, s, ok, w, R_OUT, "start + length against the slice's length")
        for s in s.assume(ok):
            b.view(k, s, v, a, n, w)
    b.done(k, ok, w)
    k = S + "remove_prefix"
    b = Bytes(c, k)
    H, w = b.H, c.P.where(c.P.one(k))
    sts, p = b.slice()
    a = H.int("usize", "prefix").l
    ok = f_le(a - b.n)
    H.watch()
    for s, v in H.call(sts, k, [p, VInt(a)]):
        H.ask("out|" + k, s, ok, w, R_OUT, "the prefix against the slice's length")
        for s in s.assume(ok):
            b.view(k, s, v, a, b.n - a, w)
            b.view("self|" + k, s, p, const(0), b.n, w, "the original is left as it was")
    b.done(k, ok, w)


def whole(c):
    """conversions: all the bytes, in order"""
    P = c.P
    b = Bytes(c, "conversions")
    H = b.H
    sts, p = b.slice()
    H.watch()
    sts2, f = b.fat()
    for s, v in H.call(sts2, S + "from_buf", [f]):
        b.view(S + "from_buf", s, v, const(0), b.n, P.where(P.one(S + "from_buf")), R_ALL)
    for s in sts:
        sl = H.E.read(s, p.o, p.p)
        for k, arg in (("<util::slice::Slice as std::ops::Deref>::deref", p), ("<util::slice::Slice as std::ops::DerefMut>::deref_mut", p),
                       ("<util::slice::Slice as std::convert::AsRef<[u8]>>::as_ref", p), ("<util::slice::Slice as std::clone::Clone>::clone", p),
                       ("util::slice::<impl std::convert::From<util::slice::Slice> for std::string::String>::from", sl),
                       ("util::slice::<impl std::convert::From<util::slice::Slice> for std::vec::Vec<u8>>::from", sl)):
            if k not in P.fns:
                continue
            for s2, v in H.call([s], k, [arg]):
                b.view(k, s2, v, const(0), b.n, P.where(k), R_ALL)
        for s2, v in H.call([s], S + "size", [p]):
            H.same_val("size", s2, v, VInt(b.n), P.where(P.one(S + "size")), "size is the number of bytes")
        for s2, v in H.call([s], S + "empty", [p]):
            w = P.where(P.one(S + "empty"))
            for g, want in ((f_eq(b.n), True), (f_le(const(1) - b.n), False)):
                for s3 in s2.assume(g):
                    H.ask("empty", s3, v.f if want else f_not(v.f), w, "empty tells whether there are no bytes")
    for k in P.fns:
        # from text: a str or String of unknown bytes
        if k.startswith("<util::slice::Slice as std::convert::From<R>>::from<[") and "[R]" not in k:
            st, x = ai.State(), H.given(ty_of_arg(P, k, 0), "text " + k)
            i = inner(H, st, x)
            n = getattr(i, "n", None)
            if n is None:
                continue
            for s, v in H.call(within([st], f_le(n - LIM)), k, [x]):
                l = H.length(s, v)
                if l is None:
                    c.ob("len|" + k, False, P.where(k), R_ALL, "not modelled", undecided=True)
                    continue
                H.ask("len|" + k, s, f_eq(l - n), P.where(k), R_ALL, "the length")
                for s2 in within([s], f_le(b.j + 1 - n)):
                    H.same_val("bytes|" + k, s2, H.at(s2, v, b.j), H.was(s2, st, x, b.j), P.where(k), R_ALL, "the byte at an unknown position")
    k = S + "from_vec"
    st, x = ai.State(), H.given(ty_of_arg(P, P.one(k), 0), "vec")
    n = getattr(x, "n", None)
    if n is not None:
        for s, v in H.call(within([st], f_le(n - LIM)), k, [x]):
            H.ask("len|" + k, s, f_eq(H.length(s, v) - n), P.where(P.one(k)), R_ALL, "the length")
            for s2 in within([s], f_le(b.j + 1 - n)):
                H.same_val("bytes|" + k, s2, H.at(s2, v, b.j), H.was(s2, st, x, b.j), P.where(P.one(k)), R_ALL, "the byte at an unknown position")
    b.done("conversions", TT, P.where(P.one(S + "from_buf")))


def merge(c):
    P = c.P
    k = S + "merge"
    w = P.where(P.one(k))
    jt = ty_of_arg(P, P.one(k), 2)
    for joined in (False, True):
        name = k + ("|joined" if joined else "|plain")
        b = Bytes(c, name)
        H = b.H
        sts, p = b.slice()
        o2 = H.given(ty_of_arg(P, P.one(k), 1), "other")
        i2 = inner(H, sts[0], o2) if sts else None
        m = getattr(i2, "n", None)
        if m is None:
            c.ob(name, False, w, R_ALL, "the other slice is not modelled", undecided=True)
            continue
        if joined:
            js = H.given(H.P.types[jt]["vf"][1][0], "joiner")
            ij = inner(H, sts[0], js)
            jn = getattr(ij, "n", None)
            jv = VEnum(jt, 1, (js,))
            if jn is None:
                continue
        else:
            js, jn, jv = None, const(0), VEnum(jt, 0, ())
        sts = within(sts, f_le(m - LIM // 4), f_le(jn - LIM // 4), f_le(b.n - LIM // 4))
        H.watch()
        for s0 in sts:
            for s, v in H.call([s0], k, [p, o2, jv]):
                l = H.length(s, p)
                if l is None:
                    c.ob("len|" + name, False, w, R_LEN, "the result is not modelled", undecided=True)
                    continue
                for s1 in s.assume(f_eq(m)):
                    b.view("nothing to merge|" + name, s1, p, const(0), b.n, w, "merging nothing changes nothing")
                for s1 in s.assume(f_le(const(1) - m)):
                    H.ask("len|" + name, s1, f_eq(l - b.n - jn - m), w, R_LEN, "the length")
                    for s2 in within([s1], f_le(b.j + 1 - b.n)):
                        H.same_val("own|" + name, s2, H.at(s2, p, b.j), b.byte(s2, b.j), w, R_ALL, "a byte of the slice")
                    if joined:
                        for s2 in within([s1], f_le(b.j + 1 - jn)):
                            H.same_val("joiner|" + name, s2, H.at(s2, p, b.n + b.j), H.was(s2, s0, js, b.j), w, R_ALL, "a byte of the joiner")
                    for s2 in within([s1], f_le(b.j + 1 - m)):
                        H.same_val("other|" + name, s2, H.at(s2, p, b.n + jn + b.j), H.was(s2, s0, o2, b.j), w, R_ALL, "a byte of the other slice")
        b.done(name, TT, w)


def unsafe(c):
    P = c.P
    ad = "util::unsafe_slice::UnsafeSlice"
    ti = adt_ti(P, ad)
    fp, fl = fidx(P, ad, "ptr"), fidx(P, ad, "len")
    for k in (US + "sub_slice", US + "to_slice", US + "len", "<util::unsafe_slice::UnsafeSlice as std::convert::AsRef<[u8]>>::as_ref"):
        kk = k if k in P.fns else P.one(k)
        w = P.where(kk)
        if ti is None or fp is None or fl is None:
            c.ob("operands|" + k, False, w, R_OK, "the fields of UnsafeSlice are not ptr and len", undecided=True)
            continue
        b = Bytes(c, k)
        H = b.H
        sts, f = b.fat()
        fs = [None, None]
        fs[fp], fs[fl] = VPtr(f.o, f.p), VInt(b.n)
        sts2 = []
        for s in sts:
            s, p = H.place(s, "unsafe slice", VAgg(ti, tuple(fs)), ti)
            sts2.append(s)
        H.watch()
        if k.endswith("sub_slice"):
            a, n = H.int("usize", "start").l, H.int("usize", "sub length").l
            ok = f_le(a + n - b.n)
            for s, v in H.call(sts2, k, [p, VInt(a), VInt(n)]):
                H.ask("out|" + k, s, ok, w, R_OUT, "start + length against the slice's length")
                for s in s.assume(ok):
                    s, q = H.place(s, "sub", v, ti)
                    for s3, v3 in H.call([s], "<util::unsafe_slice::UnsafeSlice as std::convert::AsRef<[u8]>>::as_ref", [q]):
                        b.view(k, s3, v3, a, n, w)
            b.done(k, ok, w)
        else:
            for s, v in H.call(sts2, k, [p]):
                if k.endswith("len"):
                    H.same_val(k, s, v, VInt(b.n), w, "len is the number of bytes")
                else:
                    b.view(k, s, v, const(0), b.n, w, R_ALL)
            b.done(k, TT, w)
