"""H01: the hash of every carrier type as a word over the input bytes, per length.

Hash::hash_code and each implementation of ToHash are run by the abstract interpreter on a carrier of n unknown bytes and an unknown
seed.  The results are words over the input bits (sums and products modulo 2^32 kept exact); the words of all carriers have to be
the same one, every input bit has to matter to it, and no access may leave the bytes.  Carriers of generic elements are followed up
to the bytes they hand over."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from .. import lin as L
from ..lin import const, var
from .r01 import consts

LEVEL = "other"
CONFIRM = True
CODE = "util::hash::Hash::hash_code"
R_SAME = "equal bytes and seed give an equal hash, whatever carries them"
R_ALL = "every byte takes part in the hash"
R_SEED = "the seed takes part in the hash"
R_BYTES = "the hash is taken of exactly the value's bytes"
R_IN = "no byte outside the value is read, and hashing does not fail"
TH = " as util::hash::ToHash>::"


def inner(H, st, v):
    """the object holding the bytes of a carrier"""
    for _ in range(8):
        if isinstance(v, (VFat, VVec)):
            return v
        if isinstance(v, VPtr):
            v = H.E.read(st, v.o, v.p)
        elif isinstance(v, VOp):
            v = H.E.expand(v)
        elif isinstance(v, VAgg) and len(v.fs) == 1:
            v = v.fs[0]
        else:
            return v if isinstance(v, VArr) else None
    return None


def carrier(H, ti, bs, tag="value", st=None):
    """a value of type ti whose bytes are bs; -> (state, value) or (None, None)"""
    P = H.P
    v = H.given(ti, tag)
    st = st or ai.State()
    x = inner(H, st, v)
    if not isinstance(x, (VFat, VVec)) or len(getattr(x, "p", ())) > 1:
        return None, None
    s = st.assume(f_eq(x.n - len(bs)))
    if not s:
        return None, None
    st = s[0]
    a = H.E.obj(st, x.o)
    if not isinstance(a, VArr):
        return None, None
    u8 = H.E.intty("u8")
    st = st.copy()
    st.mem[x.o] = VArr(u8, const(len(bs)), tuple((i, b) for i, b in enumerate(bs)), a.base)
    return st, v


def data(H, n):
    return [VInt(var(H.E.isym(ai.nm("given", "byte", i), H.E.intty("u8")))) for i in range(n)]


def run(c):
    P = c.P
    if not c.need(CODE):
        return
    W = lambda k: P.where(k)
    impls = [k for k in P.fns if TH in k]
    c.floor("implementations of ToHash", len(impls), 10)
    gen = [k for k in impls if "<[T]>" in k or k.endswith("]>") and "<[" in k.split("::")[-1]]
    plain = [k for k in impls if k not in gen]
    top = 21 if c.tier == "quick" else 70
    extra = sorted({m for k in consts(P, [P.one(CODE)] + impls) for m in (k - 1, k, k + 1) if top < m <= 400})
    c.extra["lengths"] = "0..%d, %s" % (top, extra)
    ref0 = {}
    for n in list(range(top + 1)) + extra[:6]:
        ref = None
        runs = [(CODE, "seed", 0)] + [(k, "seed" if "with_seed" in k else "default", 0) for k in impls]
        for k, kind, _ in runs:
            if n > 9 and k in impls and n % 4 != 1 and c.tier == "quick":
                continue
            H = Hist(c, k, unroll=n + 40, loose=True)
            H.E.size_of = sized(H.E)
            bs = data(H, n)
            st, v = carrier(H, ty_of_arg(P, k if k in P.fns else P.one(k), 0), bs)
            if st is None:
                c.ob("carrier|" + k, False, W(P.one(k) or k), R_SAME, "a carrier of type %s is not modelled" % P.types[ty_of_arg(P, P.one(k) or k, 0)]["s"], undecided=True)
                continue
            seed = H.int("u32", "seed")
            H.watch()
            out = []
            for s, r in H.call([st], k, [v] + ([seed] if kind == "seed" else [])):
                try:
                    out.append((H.E, s, bits.Bits(H.E, s).val(r, 32)))
                except bits.NoBits as e:
                    c.ob("word|%s|%d bytes" % (k, n), False, W(P.one(k) or k), R_SAME, "no bit form: %s" % e, undecided=True)
            c.functions |= set(H.E.inlined)
            H.nofail("inside|%s|%d bytes" % (k, n), T, W(P.one(k) or k), R_IN)
            key = "same|%s|%d bytes" % (k, n)
            if k == CODE:
                ref = out
                if len(out) == 1:
                    dep(c, H, out[0], bs, seed, n, W(P.one(CODE)))
                continue
            rf = ref if kind == "seed" else ref0.setdefault(n, out)
            if not rf or not out:
                c.ob(key, False, W(k), R_SAME, "no result to compare", undecided=True)
                continue
            for E, s, w in out:
                for _, s0, w0 in rf:
                    r, why = bits.same(E, s, w, w0)
                    if r == "ne" and (len(out) > 1 or len(rf) > 1):
                        r = "?"
                    c.ob(key, r == "eq", W(k), R_SAME, "%d bytes: %s against %s" % (n, why, CODE if kind == "seed" else "the other carriers"), undecided=r == "?")
    generic(c, gen)


def sized(E):
    o = E.size_of

    def f(ti):
        r = o(ti)
        return 1 if r is None and E.T[ti]["k"] == "param" else r
    return f


def dep(c, H, r, bs, seed, n, w):
    """each bit of each byte, and the seed, changes the hash of some input"""
    import random
    E, st, word = r
    rnd = random.Random(7)
    syms = [b.l.syms()[0] if not isinstance(b.l.syms(), set) else next(iter(b.l.syms())) for b in bs]
    sd = next(iter(seed.l.syms()))
    used = set()
    from ..wit import base_syms
    base_syms(word, used, set())

    def ev(a):
        return bits.ev_word(word, lambda q: a.get(q, 0), {})
    for i, y in enumerate(syms + [sd]):
        key = ("dep|byte %d of %d" % (i, n)) if i < n else "dep|seed|%d bytes" % n
        rule = R_ALL if i < n else R_SEED
        left = set(range(8 if i < n else 32))
        for t in range(6):
            a = {x: rnd.getrandbits(8) for x in syms}
            a[sd] = rnd.getrandbits(32)
            h = ev(a)
            for b in list(left):
                z = dict(a)
                z[y] ^= 1 << b
                if ev(z) != h:
                    left.discard(b)
            if not left:
                break
        c.ob(key, not left, w, rule, "changing bit %s never changes the hash" % sorted(left), undecided=y in used and any(True for b in left if (y, b) in bitsof(word, set(), set())))


def bitsof(word, out, seen):
    for b in word:
        for a in b:
            if a == 1:
                continue
            if a[0] == "K":
                if a[1] not in seen:
                    seen.add(a[1])
                    p = bits._NL[a[1]]
                    if p[0] == "and":
                        bitsof(p[1], out, seen)
                    elif p[0] == "sum":
                        for w, q in p[1]:
                            bitsof(bits._WL[w], out, seen)
                    elif p[0] == "tab":
                        bitsof(p[2], out, seen)
            else:
                out.add((a[0], a[1]))
    return out


def generic(c, gen):
    """carriers of elements of any type: the bytes handed over are all bytes of all elements"""
    P = c.P
    for k in gen:
        if "with_seed" not in k:
            continue
        got = []

        def m(E, st, fr, a, ci):
            got.append((st, a))
            return [(st, VInt(var(E.isym(ai.nm("hash", E.vkey(st, a[0]), E.vkey(st, a[1])), ci["dty"]))))]
        H = Hist(c, k, models={P.one(CODE): m})
        v = H.given(ty_of_arg(P, k, 0), "value")
        seed = H.int("u32", "seed")
        w = P.where(k)
        for s, r in H.call([ai.State()], k, [v, seed]):
            if not got:
                c.ob("bytes|" + k, False, w, R_BYTES, "no call of Hash::hash_code seen", undecided=True)
                break
            s1, a = got[-1]
            d, x = a[0], inner(H, s, v)
            src = H.arr(s, v)
            if not isinstance(d, VFat) or src is None or x is None:
                c.ob("bytes|" + k, False, w, R_BYTES, "the bytes handed over are not determined", undecided=True)
                continue
            c.ob("bytes|%s|object" % k, d.o == x.o, w, R_BYTES, "the bytes handed over belong to another object", undecided=True)
            H.ask("bytes|%s|start" % k, s, f_eq(d.p[-1][1] if d.p else const(0)), w, R_BYTES, "the first byte handed over")
            if isinstance(a[1], VInt):
                H.ask("bytes|%s|seed" % k, s, f_eq(a[1].l - seed.l), w, R_BYTES, "the seed handed over")
            arr, _, ln = src
            es = var(L.sym(("n", ai.nm("sizeof", P.types[arr.ety]["s"])), 0, 1 << 40))
            s2, want = H.E.arith(s, "Mul", es, ln, H.E.usz)
            H.ask("bytes|%s|length" % k, s2, f_eq(d.n - want), w, R_BYTES, "the number of bytes handed over")
        c.functions |= set(H.E.inlined)
