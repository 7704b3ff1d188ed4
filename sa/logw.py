"""The log writer against the log format: histories new -> add_record (unknown length) -> add_record (unknown length).

The file is a ghost vector of bytes that every write appends to (completely, partly, or not at all with an error); after a successful
append its new part is read back by the format: zero-filled block tails, 7-byte headers, fragments.  The checksum and its mask are
uninterpreted (R01 decides them), carrying the bytes they were taken of."""
from .eq import *
from .hist import Hist
from . import ai, bits, models as M
from .codec import within
from .lin import const, var, Lin
from . import lin as L

LW = "db::log_writer::LogWriter::"
R_FRAME = "a record is a FULL fragment or FIRST MIDDLE* LAST, covering it once and in order"
R_BLOCK = "a fragment with its header lies inside one block; shorter tails are zero-filled"
R_HEAD = "the header holds the fragment's length and type"
R_CRC = "the header holds the masked checksum of the type byte followed by the fragment"
R_DATA = "the fragment's bytes are the record's, in order"
R_ACK = "an append succeeds only after every byte was handed over and flushed"
R_ERR = "a failed write or flush is reported"
R_OK = "appending does not fail by itself"
BS, HS = 32768, 7
FULL, FIRST, MIDDLE, LAST = 1, 2, 3, 4
FO = ("deref", ai.nm("ghost file"))


class Writer:
    def __init__(self, c, name, rules, faults=True, unroll=6):
        self.c, self.rules, self.faults = c, rules, faults
        self.crcs = {}     # symbol -> list of (array, start, length) the checksum was taken of
        self.masks = {}    # symbol -> symbol
        ms = {"std::io::Write::write_all": self.write_all, "std::io::Write::write": self.write, "std::io::Write::flush": self.flush,
              "util::crc::CRC::extend": self.crc, "util::crc::CRC::mask": self.mask}
        self.H = Hist(c, name, models=ms, unroll=unroll)
        self.H.E.MAXD = 120
        E = self.H.E
        self.u8 = E.intty("u8")

    # ---- ghost file
    def begin(self):
        st = ai.State()
        E = self.H.E
        vt = next((i for i, t in enumerate(E.T) if t["s"] == "std::vec::Vec<u8>"), None)
        o = ("deref", ai.nm("ghost file bytes"))
        st.mem[o] = VArr(self.u8, const(0), (), ai.nm("file"))
        st.mem[FO] = VVec(vt, o, const(0), const((1 << 62)))
        E.objty[FO] = ("val", vt)
        E.objty[o] = ("arr", self.u8, const(0))
        st.ghost["dirty"] = False
        st.ghost["failed"] = False
        return st

    def append(self, E, st, fr, f, n):
        st = st.copy()
        v = st.mem[FO]
        o, E.monitor = E.monitor, None
        s, _ = M.extend_with(E, st, fr, VPtr(FO, ()), v, VFat(f.o, f.p, n))
        E.monitor = o
        s.ghost["dirty"] = True
        return s

    def fail(self, E, st, ci):
        if not self.faults or st.ghost.get("failed"):
            return []
        s = st.copy()
        s.ghost["failed"] = True
        return [(s, M.err(E, ci))]

    def write_all(self, E, st, fr, a, ci):
        f = M.fat(E, st, a[1], ci["atys"][1])
        if f is None:
            return None
        s = self.append(E, st, fr, f, f.n)
        return [(s, M.ok(E, ci, VAgg(M.okty(E, ci["dty"]), ())))] + self.fail(E, st, ci)

    def write(self, E, st, fr, a, ci):
        f = M.fat(E, st, a[1], ci["atys"][1])
        if f is None:
            return None
        out = [(self.append(E, st, fr, f, f.n), M.ok(E, ci, VInt(f.n)))]
        if self.faults and not st.ghost.get("failed"):
            # part of it
            k = var(E.isym(ai.nm("accepted", len(L.SYM)), E.usz))
            for s in within([st], f_le(k + 1 - f.n), f_le(const(1) - k)):
                out.append((self.append(E, s, fr, f, k), M.ok(E, ci, VInt(k))))
        return out + self.fail(E, st, ci)

    def flush(self, E, st, fr, a, ci):
        s = st.copy()
        s.ghost["dirty"] = False
        return [(s, M.ok(E, ci, VAgg(M.okty(E, ci["dty"]), ())))] + self.fail(E, st, ci)

    # ---- checksum
    def crc(self, E, st, fr, a, ci):
        f = M.fat(E, st, a[1], ci["atys"][1]) if len(a) > 1 else None
        init = a[0]
        if f is None or not isinstance(init, VInt):
            return None
        l = st.norm(init.l)
        seg = []
        if not (l.is_const() and l.c == 0):
            if len(l.t) != 1 or l.c or l.t[0][1] != 1 or l.t[0][0] not in self.crcs:
                return None
            seg = list(self.crcs[l.t[0][0]])
        arr = E.read(st, f.o, f.p[:-1])
        if not isinstance(arr, VArr):
            return None
        x = (arr, st.norm(f.p[-1][1]), st.norm(f.n))
        s = E.isym(ai.nm("crc of", l, arr.base, arr.els, x[1], x[2]), ci["dty"])
        self.crcs[s] = seg + [x]
        return [(st, VInt(var(s)))]

    def mask(self, E, st, fr, a, ci):
        if not isinstance(a[0], VInt):
            return None
        l = st.norm(a[0].l)
        s = E.isym(ai.nm("crc mask", l), ci["dty"])
        self.masks[s] = l
        return [(st, VInt(var(s)))]

    # ---- history
    def run(self, blocks, first=True):
        c, H = self.c, self.H
        E = H.E
        w = H.P.where(H.P.one(LW + "add_record"))
        self.w = w
        ft = H.argty(LW + "new", 0)
        sts = []
        for s, v in H.call([self.begin()], LW + "new", [H.given(ft, "file writer")]):
            s, self.p = H.place(s, "writer", v)
            sts.append(s)
        if not c.anchor(sts, "a log writer"):
            return
        if first:
            # a first record that fits the block puts the file at any position from 7 to 32768
            sts = self.add(sts, "first", 0, BS - HS)
        self.add(sts, "second" if first else "only", 0, blocks * BS)
        c.functions |= set(E.inlined)

    def add(self, sts, tag, lo, hi):
        c, H = self.c, self.H
        E = H.E
        v = H.given(H.argty(LW + "add_record", 1), tag + " record")
        out = []
        n = 0
        for s in sts:
            rec = H.arr(s, v)
            if rec is None:
                c.anchor(False, "bytes of a record")
                return []
            P0 = s.mem[FO].n
            H.watch()
            for s in within([s], f_le(rec[2] - hi), f_le(const(lo) - rec[2])):
                for s2, r in H.call([s], LW + "add_record", [self.p, v]):
                    n += 1
                    x = H.vname(r)
                    self.verdict(s2, x, tag)
                    if x == "Ok" and not s2.ghost.get("failed"):
                        self.parse(s2, P0, rec, tag)
                        out.append(s2)
            self.q("ok", lambda *a: H.nofail(*a, skip=lambda k, what, f: "capacity" in what), "ok|" + tag, T, self.w, R_OK)
        c.anchor(n, "a result of add_record (%s)" % tag)
        return out

    def q(self, rule, f, *a):
        if rule in self.rules:
            f(*a)
        elif f.__name__ == "<lambda>":
            self.H.E.fails = []

    def verdict(self, s, x, tag):
        c, H, w = self.c, self.H, self.w
        if "ack" not in self.rules:
            return
        if x is None:
            return c.ob("ack|" + tag, False, w, R_ACK, "result unknown", undecided=True)
        if s.ghost.get("failed"):
            if x == "Ok":
                H.ask("err|" + tag, s, F, w, R_ERR, "add_record succeeds after a failed write or flush")
            else:
                c.ob("err|" + tag, True, w, R_ERR)
        elif x == "Err":
            H.ask("ok|err|" + tag, s, F, w, R_OK, "add_record fails although every write and flush succeeded")
        elif s.ghost.get("dirty"):
            H.ask("ack|" + tag, s, F, w, R_ACK, "add_record succeeds with bytes not flushed")
        else:
            c.ob("ack|" + tag, True, w, R_ACK)

    # ---- reading the file back
    def byte(self, s, i):
        v = s.mem[FO]
        a = self.H.E.obj(s, v.o)
        return self.H._el(s, (a, const(0), v.n), i)

    def parse(self, s, P0, rec, tag):
        """walk the fragments from file position P0; every fork is a case of the position"""
        work = [(s, P0, None, const(0), True, 0)]
        while work:
            s, p, base, start, begin, depth = work.pop()
            if depth > 12:
                continue
            # base: start of the current block
            if base is None:
                for b in (0, BS):
                    for s2 in within([s], f_le(const(b) - p), f_le(p + 1 - b - BS)):
                        work.append((s2, p, b, start, begin, depth))
                continue
            r = const(base + BS) - p
            # the block is full, or its tail too short
            for s2 in within([s], f_le(r), f_le(-r)):
                work.append((s2, p, base + BS, start, begin, depth))
            for k in range(1, HS):
                for s2 in within([s], f_le(r - k), f_le(const(k) - r)):
                    if self.have(s2, p + k, tag):
                        for i in range(k):
                            self.eq("zero|%s|tail %d" % (tag, k), s2, self.byte(s2, p + i), VInt(const(0)), "block", R_BLOCK, "byte %d of a block tail of %d" % (i, k))
                        work.append((s2, const(base + BS), base + BS, start, begin, depth))
            for s2 in within([s], f_le(const(HS) - r)):
                work += self.fragment(s2, p, base, start, begin, depth, rec, tag)

    def have(self, s, q, tag):
        """the file reaches position q"""
        f = f_le(q - s.mem[FO].n)
        if s.holds(f):
            return True
        self.say("head" if "head" in self.rules else "frame", "cover|" + tag, s, f, R_FRAME, "the record ends early")
        return False

    def say(self, rule, key, s, f, text, d):
        if rule in self.rules:
            self.H.ask(key, s, f, self.w, text, d)

    def eq(self, key, s, a, b, rule, text, d):
        if rule in self.rules:
            self.H.same_val(key, s, a, b, self.w, text, d)

    def fragment(self, s, p, base, start, begin, depth, rec, tag):
        c, H, w = self.c, self.H, self.w
        E = H.E
        if not self.have(s, p + HS, tag):
            return []
        b4, b5, ty = (self.byte(s, p + i) for i in (4, 5, 6))
        ln = M.from_le(E, s, [b4, b5], E.intty("u16"), None)
        l = s.norm(b4.l + b5.l.mul(256)) if isinstance(b4, VInt) and isinstance(b5, VInt) else ln.l
        left = s.norm(rec[2] - start)
        whole = "%s|%s" % (tag, "begin" if begin else "rest")
        if s.holds(f_le(l - left)) is not True:
            self.say("head" if "head" in self.rules else "frame", "over|" + whole, s, f_le(l - left), R_FRAME, "the length in a header against what is left of the record")
        self.say("block", "inside|" + whole, s, f_le(p + l + HS - base - BS), R_BLOCK, "the end of a fragment")
        out = []
        for end, f in ((True, f_le(left - l)), (False, f_le(l + 1 - left))):
            for s2 in within([s], f, f_le(l - left), f_le(p + l + HS - base - BS)):
                want = (FULL if end else FIRST) if begin else (LAST if end else MIDDLE)
                self.eq("type|%s|%d" % (whole, want), s2, ty, VInt(const(want)), "head" if "head" in self.rules else "frame", R_HEAD, "the type of a fragment")
                if not self.have(s2, p + HS + l, tag):
                    continue
                self.checksum(s2, p, l, want, rec, start, whole)
                j = H.int("usize", "j").l
                for s3 in within([s2], f_le(j + 1 - l)):
                    a, b = self.byte(s3, p + HS + j), H._el(s3, rec, start + j)
                    self.eq("data|" + whole, s3, a, b, "frame", R_DATA, "a byte of a fragment")
                if end:
                    self.say("frame", "end|" + tag, s2, f_le(s2.mem[FO].n - p - l - HS), R_FRAME, "the file beyond the record's last fragment")
                else:
                    out.append((s2, s2.norm(p + l + HS), base, s2.norm(start + l), False, depth + 1))
        return out

    def checksum(self, s, p, l, ty, rec, start, tag):
        """header bytes 0..3 are the masked checksum of the type and the fragment"""
        if "crc" not in self.rules:
            return
        c, H, w = self.c, self.H, self.w
        E = H.E
        key = "crc|%s|%d" % (tag, ty)
        v = M.from_le(E, s, [self.byte(s, p + i) for i in range(4)], E.intty("u32"), None)
        m = s.norm(v.l)
        und = lambda d: c.ob(key, False, w, R_CRC, d, undecided=True)
        if len(m.t) != 1 or m.t[0][0] not in self.masks:
            x = m.t[0][0] if len(m.t) == 1 and m.t[0][1] == 1 and m.c == 0 else None
            if x in self.crcs:
                return H.ask(key, s, F, w, R_CRC, "the checksum is stored without its mask")
            # the bytes may be there in another order
            src = set()
            try:
                B = bits.Bits(E, s)
                for i in range(4):
                    for bb in B.val(self.byte(s, p + i), 8):
                        src |= {a[0] for a in bb if a != 1}
            except bits.NoBits:
                src = set()
            src = {x for x in src if x in self.masks or x in self.crcs}
            if len(src) == 1 and src <= set(self.masks):
                f = var(src.pop())
                for i in range(4):
                    H.same_val(key, s, self.byte(s, p + i), VOp(ai.nm("byte", f, i, 4), self.u8), w, R_CRC, "byte %d of the checksum" % i)
                return
            return und("the four bytes are not those of one masked checksum: %s" % L.pretty(m)[:100])
        x = self.masks[m.t[0][0]]
        if len(x.t) == 1 and x.t[0][0] in self.masks:
            return H.ask(key, s, F, w, R_CRC, "the checksum is masked twice")
        if len(x.t) != 1 or x.t[0][0] not in self.crcs:
            return und("the masked value is not a checksum: %s" % L.pretty(x)[:100])
        segs = self.crcs[x.t[0][0]]
        tot = const(0)
        for _, _, n in segs:
            tot = tot + n
        H.ask(key + "|length", s, f_eq(tot - l - 1), w, R_CRC, "the number of bytes under the checksum")

        def at(st, i):
            o = const(0)
            for arr, b, n in segs:
                if st.holds(f_le(o - i)) and st.holds(f_le(i + 1 - o - n)):
                    return H._el(st, (arr, b, n), i - o)
                o = o + n
            return None
        for s2 in within([s], f_eq(tot - l - 1)):
            a = at(s2, const(0))
            H.same_val(key + "|type", s2, a, VInt(const(ty)), w, R_CRC, "the type byte under the checksum")
            j = H.int("usize", "j").l
            for s3 in within([s2], f_le(j + 1 - l)):
                H.same_val(key + "|bytes", s3, at(s3, j + 1), H._el(s3, rec, start + j), w, R_CRC, "a byte under the checksum")


def run(c, rules, faults):
    if not c.need(LW + "new") or not c.need(LW + "add_record"):
        return
    n = 2 if c.tier == "quick" else 4
    Writer(c, "log", rules, faults, unroll=n + 5).run(n)
    Writer(c, "log0", rules, faults, unroll=n + 5).run(n, first=False)
