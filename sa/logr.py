"""The log reader against the log format: read_next from a new reader over unknown file contents, every path of the first fragments.

The file is an unknown byte array of unknown length; reads copy from it (fully, or once short, or fail once).  The checksum is
uninterpreted, named by the file bytes it was taken of.  Each result is compared with what the format says the file holds at the
reader's position: walking the same bytes, every case of the walk that the path admits must predict the result returned."""
from .eq import *
from .hist import Hist
from . import ai, bits, models as M
from .codec import within
from .lin import const, var, Lin
from . import lin as L

LR = "db::log_reader::LogReader::"
R_OK = "reading never panics"
R_RES = "the result is the record, corruption error or end of log that the file holds at this position"
R_DATA = "the record's bytes are the payloads of its fragments, in order"
R_FAIL = "a failed read is reported"
R_CRC = "a fragment whose checksum does not match is never returned as data"
BS, HS = 32768, 7
FO = ("deref", ai.nm("ghost log"))


class Reader:
    def __init__(self, c, name, short=False, faults=False, checksum=True, unroll=4, maxn=2 * BS + 64):
        self.errs = []
        self.c, self.short, self.faults, self.checksum, self.maxn = c, short, faults, checksum, maxn
        ms = {"std::io::Read::read": self.read, "std::io::Seek::seek": self.seek,
              "std::io::Error::kind": self.kind, "util::crc::CRC::extend": self.crc, "util::crc::CRC::mask": self.mask}
        self.H = Hist(c, name, models=ms, unroll=unroll, exact=True, spin=True)
        self.H.E.MAXD = 400
        E = self.H.E
        self.u8 = E.intty("u8")
        self.base = ai.nm("log bytes")
        self.N = H_int(self.H, "file length")
        self.F = VArr(self.u8, self.N, (), self.base)
        self.w = self.H.P.where(self.H.P.one(LR + "read_next"))

    # ---- environment
    def read(self, E, st, fr, a, ci):
        f = M.fat(E, st, a[1], ci["atys"][1])
        if f is None:
            return None
        st = st.copy()
        k = st.ghost["reads"] = st.ghost.get("reads", 0) + 1
        pos = st.ghost["pos"]
        left = self.N - pos
        cases = []
        for s in within([st], f_le(f.n - left)):
            cases.append((s, f.n))
        for s in within([st], f_le(left + 1 - f.n), f_le(-left)):
            cases.append((s, left))
        for s in within([st], f_le(left + 1)):
            cases.append((s, const(0)))
        out = []
        for s, n in cases:
            out.append(self.got(E, s, f, n, ci))
            if self.short and not s.ghost.get("short"):
                m = var(E.isym(ai.nm("short read", k), E.usz))
                for s2 in within([s], f_le(const(1) - m), f_le(m + 1 - n)):
                    s2 = s2.copy()
                    s2.ghost["short"] = True
                    out.append(self.got(E, s2, f, m, ci))
        if self.faults and not st.ghost.get("failed"):
            s = st.copy()
            s.ghost["failed"] = True
            out.append((s, M.err(E, ci)))
        return out

    def kind(self, E, st, fr, a, ci):
        """an interrupted read may be tried again"""
        i = variant(E.P, ci["dty"], "Interrupted")
        if i is None:
            return None
        n = len(E.P.adts[E.T[ci["dty"]]["def"]]["variants"])
        out = []
        for k in (i, 0 if i else 1):
            s = st.copy()
            if k == i and s.ghost.get("failed"):
                s.ghost["failed"] = "interrupted"
            out.append((s, VEnum(ci["dty"], k, ())))
        return out

    def got(self, E, s, f, n, ci):
        s = M.copy_elems(E, s, f, VPtr(FO, (("i", s.ghost["pos"]),)), n)
        s.ghost["pos"] = s.norm(s.ghost["pos"] + n)
        return s, M.ok(E, ci, VInt(n))

    def seek(self, E, st, fr, a, ci):
        st = st.copy()
        v = a[1]
        if isinstance(v, VEnum) and v.fs and isinstance(v.fs[0], VInt):
            st.ghost["pos"] = st.norm(v.fs[0].l)
            return [(st, M.ok(E, ci, VInt(v.fs[0].l)))]
        return None

    def el(self, s, v, i):
        return self.H._el(s, (v, const(0), v.n), i)

    def byte(self, s, i):
        return self.el(s, self.F, i)

    def crc(self, E, st, fr, a, ci):
        """named by the file bytes: (offset, length)"""
        f = M.fat(E, st, a[1], ci["atys"][1]) if len(a) > 1 else None
        if f is None or not isinstance(a[0], VInt):
            return None
        init = st.norm(a[0].l)
        arr = E.read(st, f.o, f.p[:-1])
        if not isinstance(arr, VArr):
            return None
        n = st.norm(f.n)
        o = self.where(E, st, arr, f.p[-1][1], n)
        if o is not None and not (init.is_const() and init.c == 0):
            # the continuation of a checksum of the bytes before
            d = ai._NMI[L.SYM[init.t[0][0]][1]] if len(init.t) == 1 and init.t[0][1] == 1 and not init.c and L.SYM[init.t[0][0]][0] == "n" else (None,)
            if d[0] == "crc of file" and st.holds(f_eq(d[1] + d[2] - o)):
                o, n = d[1], st.norm(d[2] + n)
            else:
                o = None
        if o is None:
            return [(st, VInt(var(E.isym(ai.nm("crc of", init, arr.base, arr.els, st.norm(f.p[-1][1]), n, ai.fresh_name("havoc")), ci["dty"]))))]
        return [(st, VInt(var(E.isym(ai.nm("crc of file", st.norm(o), n), ci["dty"]))))]

    def where(self, E, st, arr, b, n):
        """file offset at which the n bytes of arr at b stand, if they are file bytes"""
        if n.is_const() and 0 < n.c <= 8:
            os = [self.file_at(self.H._el(st, (arr, const(0), arr.n), b + i)) for i in range(n.c)]
            if any(o is None for o in os) or any(not (x - os[0]).is_const() or (x - os[0]).c != i for i, x in enumerate(os)):
                return None
            return os[0]
        j = self.H.int("usize", "some index").l
        sts = within([st], f_le(j + 1 - n))
        if len(sts) != 1:
            return None
        e = self.H._el(sts[0], (arr, const(0), arr.n), b + j)
        o = self.file_at(e)
        if o is None:
            return None
        o = o - j
        return None if j.t[0][0] in o.syms() else o

    def file_at(self, e):
        """the position of a byte that is a byte of the file"""
        if not isinstance(e, VInt) or len(e.l.t) != 1 or e.l.c or e.l.t[0][1] != 1:
            return None
        x = L.SYM[e.l.t[0][0]]
        if x[0] != "n":
            return None
        d = ai._NMI[x[1]]
        return d[2] if d[0] == "elem" and d[1] == self.base and len(d) == 3 else None

    def mask(self, E, st, fr, a, ci):
        if not isinstance(a[0], VInt):
            return None
        return [(st, VInt(self.masked(st, st.norm(a[0].l))))]

    def masked(self, st, l):
        return var(self.H.E.isym(ai.nm("crc mask", l), self.H.E.intty("u32")))

    # ---- history
    def start(self, initial=None):
        c, H = self.c, self.H
        E = H.E
        st = ai.State()
        st.mem[FO] = self.F
        E.objty[FO] = ("arr", self.u8, self.N)
        st.ghost["pos"] = const(0)
        st.ghost["spec"] = (const(0), 0)
        k = LR + "new"
        flag = VBool(("T",) if self.checksum else F)
        out = []
        ini = VInt(const(0)) if initial is None else H.int("usize", "initial offset")
        for s0 in within([st], f_le(self.N - self.maxn), *([f_le(ini.l - initial), f_le(const(1) - ini.l)] if initial else [])):
            for s, v in H.call([s0], k, [H.given(H.argty(k, 0), "log file"), flag, ini]):
                s, self.p = H.place(s, "reader", v)
                out.append(s)
        c.anchor(out, "a log reader")
        return out

    def run(self, calls, tag):
        sts = self.start()
        H = self.H
        for k in range(calls):
            out = []
            H.watch()
            for s, v in H.call(sts, LR + "read_next", [self.p]):
                out += self.result(s, v, "%s|%d" % (tag, k))
            H.nofail("ok|%s|%d" % (tag, k), ("T",), self.w, R_OK, skip=lambda k, what, f: "capacity" in what)
            sts = out
        self.c.functions |= set(H.E.inlined)
        return sts

    def safe(self, sts, calls, tag):
        """further calls do not panic"""
        H = self.H
        for k in range(calls):
            H.watch()
            sts = [s for s, v in H.call(sts, LR + "read_next", [self.p])]
            H.nofail("ok|%s|%d" % (tag, k), ("T",), self.w, R_OK, skip=lambda k, what, f: "capacity" in what)
        self.c.functions |= set(H.E.inlined)
        return sts

    def result(self, s, v, tag):
        c, H = self.c, self.H
        x = H.vname(v)
        kind = None
        rec = None
        if x == "Err":
            kind = "Err"
        elif x == "Ok" and isinstance(v, VEnum) and len(v.fs) == 1:
            y = H.vname(v.fs[0])
            kind = {"None": "None", "Some": "Some"}.get(y)
            if kind == "Some":
                rec = H.arr(s, v.fs[0].fs[0])
        if kind is None:
            c.ob("res|" + tag, False, self.w, R_RES, "result unknown", undecided=True)
            return []
        if kind == "Err" and s.ghost.get("failed"):
            c.ob("res|" + tag, True, self.w, R_RES)
            return []
        if s.ghost.get("failed") is True:
            H.ask("failed|" + tag, s, F, self.w, R_FAIL, "read_next gives %s although a read failed" % kind)
            return []
        out = []
        p, base = s.ghost["spec"]
        for t, want, segs, p2, base2, why in self.walk(s, p, base, [], 0):
            self.say("res|%s|%s instead of %s" % (tag, kind, want), t, want == kind, why)
            if want != kind:
                continue
            if kind == "Err":
                self.errs.append(t)
            if kind == "Some":
                if rec is None:
                    c.ob("data|" + tag, False, self.w, R_DATA, "bytes of the record unknown", undecided=True)
                    continue
                o = const(0)
                for q, n in segs:
                    o = o + n
                H.ask("len|" + tag, t, f_eq(o - rec[2]), self.w, R_DATA, "the record's length")
                o = const(0)
                for q, n in segs:
                    j = H.int("usize", "j").l
                    for t2 in within([t], f_le(j + 1 - n), f_eq(rec[2] - rec[2])):
                        H.same_val("data|" + tag, t2, H._el(t2, rec, o + j), self.byte(t2, q + j), self.w, R_DATA, "a byte of the record")
                    o = o + n
                t = t.copy()
                t.ghost["spec"] = (p2, base2)
                out.append(t)
        return out

    def say(self, key, t, ok, why):
        if ok:
            self.c.ob(key, True, self.w, R_RES)
        else:
            self.H.ask(key, t, F, self.w, R_RES, why)

    def walk(self, s, p, base, segs, depth):
        """-> (state, expected result, segments, position, block, explanation)"""
        E = self.H.E
        N = self.N
        if depth > 8:
            return
        # the end of what the file holds of this block
        for full in (True, False):
            for s1 in within([s], f_le(const(base + BS) - N) if full else f_le(N + 1 - base - BS)):
                be = const(base + BS) if full else N
                av = be - p
                for s2 in within([s1], f_le(av - HS + 1)):
                    if full:
                        yield from self.walk(s2, const(base + BS), base + BS, segs, depth + 1)
                    else:
                        yield s2, "None", segs, p, base, "the file ends inside a header or before one"
                for s2 in within([s1], f_le(const(HS) - av)):
                    yield from self.frag(s2, p, base, be, full, segs, depth)

    def frag(self, s, p, base, be, full, segs, depth):
        b = [self.byte(s, p + i) for i in range(HS)]
        l = s.norm(b[4].l + b[5].l.mul(256))
        t = b[6].l
        for s1 in within([s], f_le(be - p - HS + 1 - l)):
            yield s1, ("Err" if full else "None"), segs, p, base, "a fragment longer than what is left of the %s" % ("block" if full else "file")
        for s1 in within([s], f_le(l - be + p + HS)):
            for s2 in within([s1], f_eq(t), f_eq(l)):
                if full:
                    yield from self.walk(s2, const(base + BS), base + BS, segs, depth + 1)
                else:
                    yield s2, "None", segs, p, base, "a zero-filled rest of the file"
            for g in (f_ne(t), f_and(f_eq(t), f_ne(l))):
                for s2 in within([s1], g):
                    yield from self.frag2(s2, p, base, l, t, b, segs, depth)

    def frag2(self, s, p, base, l, t, b, segs, depth):
        E = self.H.E
        sts = [s]
        if self.checksum:
            want = M.from_le(E, s, b[:4], E.intty("u32"), None).l
            has = self.masked(s, var(E.isym(ai.nm("crc of file", s.norm(p + 6), s.norm(l + 1)), E.intty("u32"))))
            for s1 in within([s], f_ne(want - has)):
                yield s1, "Err", segs, p, base, "a fragment with a wrong checksum"
            sts = within([s], f_eq(want - has))
        for s1 in sts:
            q, e = s1.norm(p + HS), s1.norm(p + HS + l)
            for k in (1, 2, 3, 4):
                for s2 in within([s1], f_eq(t - k)):
                    if k in (1, 2):
                        if segs:
                            yield s2, "Err", segs, p, base, "a record begins inside another"
                        elif k == 1:
                            yield s2, "Some", [(q, l)], e, base, "a whole record"
                        else:
                            yield from self.walk(s2, e, base, [(q, l)], depth + 1)
                    elif not segs:
                        yield s2, "Err", segs, p, base, "a fragment without a beginning"
                    elif k == 4:
                        yield s2, "Some", segs + [(q, l)], e, base, "a record of several fragments"
                    else:
                        yield from self.walk(s2, e, base, segs + [(q, l)], depth + 1)
            for g in (f_eq(t), f_le(const(5) - t)):
                for s2 in within([s1], g):
                    yield s2, "Err", segs, p, base, "a fragment of unknown type"


def H_int(H, tag):
    return H.int("usize", tag).l


def f_ne(l):
    return ("ne", l)

