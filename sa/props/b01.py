"""B01: the bloom filter has no false negatives.

A policy is made for each setting; a filter is built over one, two or three unknown keys and queried for each of them, by the abstract
interpreter.  The hash of a key is an unknown word that depends on the key's bytes and on the seed.  Building yields the ordered list of
writes to the filter (position, value); querying is run over a filter of the built length and trailing byte whose other bytes are
unknown, which yields the paths to a negative answer with the bit each of them found clear.  A negative answer is impossible when that
bit is one building set: some write ORs that mask into that byte and no later write can clear it.  A negative answer whose conditions
hold for the filter built, for a concrete hash value, is a violation."""
import random
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from .. import lin as L
from ..codec import within
from ..lin import const, var, Lin

LEVEL = "other"
BP = "util::filter_policy_bloom::BloomFilterPolicy"
FP = "<%s as traits::filter_policy_trait::FilterPolicy>::" % BP
NEW, CREATE, CRLEN, MATCH = BP + "::new_with_bits_per_key", FP + "create_filter", FP + "create_filter_with_len", FP + "key_may_match"
HASH = "util::hash::Hash::hash_code"


R_NEG = "a query of a key the filter was built over never answers no"
R_LEN = "the filter is never empty and ends in its probe count"
R_OK = "building and querying do not fail"


def run(c):
    P = c.P
    for f in (NEW, CREATE, MATCH, HASH):
        if not c.need(f):
            return
    del VIOL[:]
    quick = c.tier == "quick"
    plan = [(b, 1) for b in (0, 1, 2, 3, 5, 8, 10, 13)] + [(1, 2), (4, 2), (4, 3), (8, 2), (1, 70), (3, 50), (5, 20), (10, 8), (8, 3), (10, 2), (16, 1), (20, 1), (2100, 1)]
    if not quick:
        plan += [(b, 1) for b in range(0, 61) if (b, 1) not in plan] + [(b, 1) for b in (64, 100, 128, 1000, 4096, 100000)]
        plan += [(b, n) for n in (2, 3) for b in (0, 2, 3, 5, 13, 16, 22, 23)] + [(2, 100), (3, 100), (1, 200), (10, 30), (7, 40), (70000, 1)]
    for b, n in plan:
        setting(c, b, n)
        if VIOL:
            break
    c.extra["settings (bits per key, keys)"] = [list(x) for x in plan]


def setup(c, tag):
    def hash_code(E, st, fr, a, ci):
        x = H.arr(st, a[0])
        k = E.vkey(st, a[0]) if x is None else (x[0].base, x[0].els, st.norm(x[1]), st.norm(x[2]))
        return [(st, VInt(var(E.isym(ai.nm("given", "hash", k, st.norm(E.as_lin(a[1]))), ci["dty"]))))]
    H = Hist(c, tag, models={HASH: hash_code}, exact=True, unroll=10000, symshift=True, rotshift=True)
    H.E.MAXD = 400
    return H


def keys(H, st, ks, et):
    vt = ty_of_arg(H.P, H.P.one(CREATE), 1)
    o = ("deref", ai.nm("hist", "keys", len(ks)))
    st = st.copy()
    st.mem[o] = VArr(et, const(len(ks)), tuple((i, k) for i, k in enumerate(ks)), ai.nm("given", "no more keys"))
    return st, VVec(vt, o, const(len(ks)), const(len(ks)))


def setting(c, bpk, nk):
    P = c.P
    tag = "%d bits per key, %d keys" % (bpk, nk)
    H = setup(c, tag)
    W = lambda f: P.where(P.one(f))
    rep = lambda key, why: c.ob(key + "|" + tag, False, W(CREATE), R_NEG, why, undecided=True)
    H.watch()
    pols = H.call([ai.State()], NEW, [VInt(const(bpk))])
    H.nofail("ok|new|" + tag, T, W(NEW), R_OK)
    et = ty_of_arg(P, P.one(MATCH), 1)
    done = 0
    for s, pol in pols:
        s, me = H.place(s, "policy " + tag, pol)
        ks = [H.given(et, "key %d" % i) for i in range(nk)]
        s, v = keys(H, s, ks, et)
        H.watch()
        fs = H.call([s], CREATE, [me, v])
        H.nofail("ok|create|" + tag, T, W(CREATE), R_OK)
        for s1, f in fs:
            a = H.arr(s1, f)
            n = s1.norm(a[2]) if a else None
            if a is None or not n.is_const() or not s1.norm(a[1]).is_const() or a[1].c:
                rep("filter", "the filter is not determined")
                continue
            n = n.c
            c.ob("length|" + tag, n >= 2, W(CREATE), R_LEN, "the filter has %d bytes" % n)
            if n < 2:
                continue
            fill, ws = writes(H, s1, a[0])
            if ws is None:
                rep("filter", "the writes to the filter are not determined: " + fill)
                continue
            last = H._el(s1, a, const(n - 1)) if not any(w[0] is not None for w in ws) else trailer(s1, ws, fill, n - 1)
            if last is None:
                rep("filter", "the last byte is not determined")
                continue
            # the filter as the query sees it
            o = ("deref", ai.nm("hist", "filter", tag))
            u8 = H.E.intty("u8")
            base = ai.nm("given", "filter byte", tag)
            sq = s1.copy()
            sq.mem[o] = VArr(u8, const(n), ((n - 1, VInt(const(last))),), base)
            sq, fp = H.place(sq, "query filter " + tag, slice_of(H.E, getattr(f, "ty", et), o, const(n)))
            for who, pol2 in (("same policy", me), ("other policy", None)):
                if pol2 is None:
                    if nk > 1 or bpk > 10:
                        continue
                    qs = H.call([sq], NEW, [VInt(const(1 if bpk > 2 else 9))])
                    if len(qs) != 1:
                        rep("other", "the other policy is not determined")
                        continue
                    sq, pol2 = H.place(qs[0][0], "other policy " + tag, qs[0][1])
                for i, k in enumerate(ks):
                    if nk > 3 and i not in (0, 1, nk // 2, nk - 1):
                        continue
                    H.watch()
                    rs = H.call([sq], MATCH, [pol2, k, fp])
                    H.nofail("ok|match|" + tag, T, W(MATCH), R_OK)
                    for s2, r in rs:
                        done += 1
                        answer(c, H, s2, r, base, n, ws, fill, last, "match|%s|%s" % (who, tag), W(MATCH), i)
    c.functions |= set(H.E.inlined)
    if not done:
        rep("done", "the history does not complete")


def slice_of(E, ti, o, n):
    if E.is_vec(ti):
        return VVec(ti, o, n, n)
    fs = []
    for x in E.T[ti]["vf"][0]:
        if E.is_vec(x) or (E.T[x]["k"] == "adt" and E.T[x].get("vf") and len(E.T[x]["vf"]) == 1):
            fs.append(slice_of(E, x, o, n))
        else:
            fs.append(E.mk(x, ai.nm("given", "slice field")))
    return VAgg(ti, tuple(fs))


def writes(H, st, a):
    """(fill value, [(index Lin, value Lin, bases an element may be read from)]) in the order made"""
    out = []
    b, bases = a, []
    while True:
        bases.append((b.base, b.els))
        for i, x in reversed(b.els):
            l = H.E.as_lin(x)
            if l is None:
                return "an element has no value", None
            out.append((const(i), st.norm(l), None))
        n = ai._NMI[b.base]
        if n[0] == "st":
            l = H.E.as_lin(n[4])
            if l is None:
                return "a write has no value", None
            out.append((st.norm(n[3]), st.norm(l), n[1]))
            b = VArr(b.ety, b.n, n[2], n[1])
            continue
        if n[0] == "fill":
            l = H.E.as_lin(n[1])
            if l is not None and l.is_const():
                return l.c, out[::-1]
        return str(n[0]), None


def trailer(st, ws, fill, i):
    """the constant at index i: no write of unknown position reaches it"""
    v = fill
    for ix, val, b in ws:
        if ix.is_const():
            if ix.c == i:
                if not val.is_const():
                    return None
                v = val.c
        elif not st.holds(("ne", ix - i)):
            return None
    return v


def symof(l):
    """the symbol a Lin consists of"""
    s = list(l.syms())
    if len(s) == 1 and l == var(s[0]):
        return s[0]
    return None


def named(l):
    s = symof(l) if isinstance(l, Lin) else None
    n = L.SYM[s] if s is not None else None
    return ai._NMI[n[1]] if n is not None and n[0] == "n" else (None,)


class Give(Exception):
    pass


class Ev:
    """values of symbols under an assignment of the inputs; the filter's bytes come from the writes made building it"""
    def __init__(self, E, rnd, base, arr):
        self.E, self.rnd, self.base, self.arr = E, rnd, base, arr
        self.asg, self.memo, self.states = {}, {}, {}

    def lin(self, l):
        if not isinstance(l, Lin):
            if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], Lin):
                l = l[1]
            elif isinstance(l, VInt):
                l = l.l
            else:
                raise Give(repr(l)[:60])
        return l.c + sum(k * self.sym(s) for s, k in l.t)

    def sym(self, s):
        if s not in self.memo:
            self.memo[s] = self._sym(s)
        return self.memo[s]

    def _sym(self, s):
        n = L.SYM[s]
        lo, hi = L.LO[s], L.HI[s]
        if n[0] != "n":
            raise Give(L.name_of(s))
        p = ai._NMI[n[1]]
        h = p[0]
        if h == "mod":
            return self.lin(p[1]) % p[2]
        if h == "div":
            return self.lin(p[1]) // p[2]
        if h == "op":
            a, b = self.lin(p[2]), self.lin(p[3])
            m = (1 << hi.bit_length()) - 1
            if a < 0 or b < 0 or p[1] in ("Shl", "Shr") and b > 127:
                raise Give(p[1])
            f = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Shl": lambda: a << b & m, "Shr": lambda: a >> b, "Rem": lambda: a % b if b else 0, "Div": lambda: a // b if b else 0, "Mul": lambda: a * b & m}
            if p[1] not in f:
                raise Give(p[1])
            return f[p[1]]()
        if h == "numop" and p[1] in ("rotate_left", "rotate_right") and len(p[2]) == 2:
            w = hi.bit_length()
            x, k = self.lin(p[2][0]), self.lin(p[2][1]) % w
            if p[1] == "rotate_left":
                k = (w - k) % w
            return (x >> k | x << (w - k)) & ((1 << w) - 1)
        if h == "elem":
            i = self.lin(p[-1])
            if p[1] == self.base:
                if self.arr is None or not 0 <= i < len(self.arr):
                    raise Give("element")
                return self.arr[i]
            if p[1] in self.states:
                return self.states[p[1]][i]
            raise Give("element of " + str(p[1])[:40])
        if h == "given" and lo is not None and hi is not None:
            if p[1] == "hash":
                self.asg[s] = v = self.rnd(lo, hi)
                return v
            raise Give("input")
        raise Give(L.name_of(s)[:60])

    def build(self, n, fill, ws):
        """the filter for this assignment"""
        cur = [fill] * n
        self.states = {}
        for ix, val, base in ws:
            if base is not None:
                self.states[base] = list(cur)
            i = self.lin(ix)
            if not 0 <= i < n:
                raise Give("position")
            cur[i] = self.lin(val) & 255
        self.arr = cur


def kept(st, ws, fill, nconst):
    """[(index, mask)] ORed into the filter, and whether no write can clear a bit set before"""
    out, bases, clean = [], [], True
    pure = True
    for ix, val, base in ws:
        if base is None:
            if ix.c == nconst:
                continue
            out.append((ix, val))
            pure = False
            continue
        bases.append(base)
        n = named(val)
        m = None
        if n[0] == "op" and n[1] == "BitOr":
            for x, y in ((n[2], n[3]), (n[3], n[2])):
                e = named(x)
                if e[0] == "elem" and e[1] in bases and st.norm(e[-1] - ix) == const(0):
                    m = y
                    break
        if m is None and pure and fill == 0 and not out:
            m = val          # nothing was set before
        if m is None:
            clean = False
            m = val
        out.append((ix, m))
    return out, clean


def mask(l):
    """('bit', amount) for 1 << amount"""
    n = named(l)
    if n[0] == "op" and n[1] == "Shl" and n[2] == const(1):
        return ("bit", n[3])
    return ("mask", l)


def clear_bits(st, base):
    """[(index, mask)] the path found clear"""
    out = []
    for s, v in st.sub.items():
        if v != const(0):
            continue
        n = named(var(s))
        if n[0] == "op" and n[1] == "BitAnd":
            for x, y in ((n[2], n[3]), (n[3], n[2])):
                e = named(x)
                if e[0] == "elem" and e[1] == base:
                    out.append((e[-1], mask(y)))
                e = named(x)
                if e[0] == "op" and e[1] == "Shr" and y == const(1) and named(e[2])[0] == "elem" and named(e[2])[1] == base:
                    out.append((named(e[2])[-1], ("bit", e[3])))
        if n[0] == "mod" and n[2] == 2:
            e = named(n[1])
            if e[0] == "op" and e[1] == "Shr" and named(e[2])[0] == "elem" and named(e[2])[1] == base:
                out.append((named(e[2])[-1], ("bit", e[3])))
    return out


class Canon:
    """structural form of a value; words made by bit operations alone are compared bit by bit, so that a rotation equals the two
    shifts it abbreviates"""
    def __init__(self, H, st):
        self.B, self.st, self.memo, self.ids = bits.Bits(H.E, st), st, {}, {}

    def lin(self, l):
        if not isinstance(l, Lin):
            l = l[1] if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], Lin) else l.l if isinstance(l, VInt) else l
        if not isinstance(l, Lin):
            return ("?", l)
        return (tuple(sorted(((self.sym(s), k) for s, k in l.t))), l.c)

    def sym(self, s):
        if s not in self.memo:
            k = self._sym(s)
            self.memo[s] = self.ids.setdefault(k, len(self.ids))
        return self.memo[s]

    def _sym(self, s):
        n = named(var(s))
        if n[0] in ("mod", "div"):
            return (n[0], self.lin(n[1]), n[2])
        if n[0] == "op" and n[1] in ("BitOr", "BitAnd", "BitXor") or n[0] == "numop" and n[1].startswith("rotate"):
            try:
                return ("word", self.B.sym(s, 32))
            except bits.NoBits:
                pass
        return ("sym", s)


def equal(C, st, a, b):
    return st.norm(a - b) == const(0) or C is not None and C.lin(a) == C.lin(b)


def answer(c, H, s, r, base, n, ws, fill, last, key, w, which):
    E = H.E
    if isinstance(r, VBool) and s.holds(r.f):
        return c.ob(key, True, w, R_NEG)
    if not isinstance(r, VBool):
        return c.ob(key, False, w, R_NEG, "the answer is not determined", undecided=True)
    for s in s.assume(f_not(r.f)):
        found = clear_bits(s, base)
        sets, clean = kept(s, ws, fill, n - 1)
        if clean and any(k[0] == mask(m)[0] and equal(C, s, i, j) and equal(C, s, k[1], mask(m)[1]) for C in (None, Canon(H, s)) for i, k in found for j, m in sets):
            c.ob(key, True, w, R_NEG)
            continue
        t = witness(E, s, base, n, ws, fill)
        if t and not s.ghost.get("havoc"):
            VIOL.append(key)
        c.ob(key, False, w, R_NEG, "key %d of the set is denied: %s" % (which, t or "the bit found clear is not shown to be set"), undecided=t is None or bool(s.ghost.get("havoc")))


VIOL = []
SPECIAL = (0, 1, 2, 0xffffffff, 0x80000000, 0x1ffff, 0x20000, 0x7fff, 0x8000, 0xfffffffe)


def witness(E, st, base, n, ws, fill, tries=300):
    """hash values for which the path is taken over the filter built, or None"""
    rnd = random.Random(7)
    for t in range(tries):
        L.tick()

        def pick(lo, hi):
            if t < 2 * len(SPECIAL):
                v = SPECIAL[(t + rnd.randrange(2) * 3) % len(SPECIAL)]
                return min(max(v, lo), hi)
            return rnd.randint(lo, min(hi, lo + 40)) if rnd.randrange(8) == 0 else rnd.randint(lo, hi)
        ev = Ev(E, pick, base, None)
        try:
            ev.build(n, fill, ws)
            if all(ev.sym(s) == ev.lin(l) for s, l in st.sub.items()) and all(ev.lin(l) <= 0 for l in st.les) and all(ev.lin(l) != 0 for l in st.nes):
                return "with " + ", ".join("hash %#x" % v if "hash" in L.name_of(s) else "%s = %d" % (L.name_of(s), v) for s, v in ev.asg.items())
        except Give as e:
            return None
    return None
