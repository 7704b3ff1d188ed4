"""Q01: byte-string comparison.

Two byte strings: (a) of unknown lengths that first differ at an unknown place (or not at all), comparisons of runs being decided
from that place; (b) of every pair of short lengths with unknown bytes, element by element.  In every case the abstract interpreter
runs the comparator and the comparison operators, and the result has to be the lexicographic order of unsigned bytes, a shorter
string before its extensions."""
from ..eq import *
from ..dom import f_and as and2
from ..hist import Hist
from .. import ai
from ..codec import within
from .. import lin as L
from ..lin import const, var
from functools import reduce




def f_and(*fs):
    return reduce(and2, fs, ("T",))


LEVEL = "other"
CONFIRM = True
CMP = "<util::comparator::BytewiseComparatorImpl as traits::comparator_trait::Comparator>::compare"
EQ = "<util::slice::Slice as std::cmp::PartialEq>::eq"
NE = "<util::slice::Slice as std::cmp::PartialEq>::ne"
PC = "<util::slice::Slice as std::cmp::PartialOrd>::partial_cmp"
SW = "util::slice::Slice::starts_with"
R_ORD = "strings are ordered lexicographically by unsigned bytes, a proper prefix first"
R_EQ = "strings are equal exactly when length and bytes are"
R_SW = "starts_with tells whether the other string is a prefix"
R_IN = "no byte outside the strings is read, and comparing does not fail"


def run(c):
    P = c.P
    for k in (CMP, EQ, PC, SW):
        if not c.need(k):
            return
    top = 3 if c.tier == "quick" else 6
    for k in (CMP, PC, EQ, SW):
        general(c, k)
        for la in range(top + 1):
            for lb in range(top + 1):
                short(c, k, la, lb)
        for la, lb in ((8, 8), (9, 8), (8, 9)) + (((17, 16), (16, 17), (33, 33)) if c.tier != "quick" else ()):
            short(c, k, la, lb)
    c.extra["short lengths"] = "0..%d each" % top


def operand(H, st, k, i, tag, n, els=None):
    """the i-th argument of k over the bytes of a named array"""
    E, P = H.E, H.P
    u8 = E.intty("u8")
    base = ai.nm("string", tag)
    arr = VArr(u8, n, tuple(enumerate(els or ())), base)
    ti = ty_of_arg(P, c_key(H, k), i)
    st = st.copy()
    o = ("deref", ai.nm("string", tag))
    E.objty[o] = ("arr", u8)
    st.mem[o] = arr
    f = VFat(o, (("i", const(0)),), n)
    if P.types[E.pointee(ti)]["k"] == "slice":
        return st, f
    # a Slice over them
    for s, v in H.call([st], "util::slice::Slice::from_buf", [f]):
        s, p = H.place(s, "slice " + tag, v)
        return s, p
    return st, None


def c_key(H, k):
    return k if k in H.P.fns else H.P.one(k)


def setup(c, k, name, la, lb, opts=None, ea=None, eb=None, **kw):
    H = Hist(c, name, exact=True, unroll=60, **kw)
    H.E.MAXD = 400
    H.E.opts.update(opts or {})
    st = ai.State()
    first = 1 if k == CMP else 0
    st, a = operand(H, st, k, first, "A", la, ea)
    st, b = operand(H, st, k, first + 1, "B", lb, eb)
    if a is None or b is None:
        c.ob("operands|" + name, False, H.P.where(c_key(H, k)), R_IN, "operands not modelled", undecided=True)
        return None
    args = [a, b]
    if first:
        st, p = H.place(st, "self", H.given(H.E.pointee(ty_of_arg(H.P, c_key(H, k), 0)), "self"))
        args = [p] + args
    return H, st, args


def answer(c, H, k, key, s, v, cases, w):
    """cases: [(condition, order)]"""
    P = H.P
    for cond, o in cases:
        for s2 in s.assume(cond):
            if k in (EQ, SW):
                if not isinstance(v, VBool):
                    c.ob(key, False, w, R_EQ, "answer not modelled", undecided=True)
                    continue
                H.ask(key, s2, v.f if o == 0 else f_not(v.f), w, R_EQ if k == EQ else R_SW, "the answer")
                continue
            want = {-1: "Less", 0: "Equal", 1: "Greater"}[o]
            got = H.vname(v)
            if got == "Some" and isinstance(v, VEnum) and v.fs:
                got = H.vname(v.fs[0])
            if got is None:
                c.ob(key, False, w, R_ORD, "answer not modelled: %r" % (v,), undecided=True)
            elif got == want:
                c.ob(key, True, w, R_ORD)
            else:
                H.ask(key, s2, ("F",), w, R_ORD, "%s instead of %s" % (got, want))


def general(c, k):
    name = "any length|" + k
    w = c.P.where(c.P.one(k) or k)

    def order(E, st, a, b, n):
        s = 1
        if a[0] == B and b[0] == A:
            s, a, b = -1, b, a
        if a[0] != A or b[0] != B or not (a[1] - b[1]).is_const() or (a[1] - b[1]).c:
            if a[0] == b[0] and st.holds(f_eq(a[1] - b[1])):
                return [(st, 0)]
            return None
        o = a[1]
        # the first difference lies before the run: nothing known; within: its sign; after: none
        out = [(t, 0) for t in st.assume(f_or(f_le(o + n - d), f_eq(n)))]
        for t in st.assume(f_not(f_or(f_le(o + n - d), f_eq(n)))):
            if not t.holds_le(o - d):
                return None
            out += [(u, -s) for u in t.assume(f_le(sg + 1))] + [(u, s) for u in t.assume(f_le(-sg))]
        return out
    A, B = ai.nm("string", "A"), ai.nm("string", "B")
    H = Hist(c, name)
    la, lb, d = H.int("usize", "length a").l, H.int("usize", "length b").l, H.int("usize", "first difference").l
    sg = H.int("i8", "sign").l
    r = setup(c, k, name, la, lb, {"order": order, "cmp_max": 0})
    if r is None:
        return
    H, st, args = r
    H.watch()
    less = f_le(la + 1 - lb)
    more = f_le(lb + 1 - la)
    dif = f_and(f_le(d + 1 - la), f_le(d + 1 - lb))
    nod = f_not(dif)
    if k == EQ:
        cases = [(dif, 1), (f_and(nod, f_not(f_eq(la - lb))), 1), (f_and(nod, f_eq(la - lb)), 0)]
    elif k == SW:
        cases = [(dif, 1), (f_and(nod, less), 1), (f_and(nod, f_le(lb - la)), 0)]
    else:
        cases = [(f_and(dif, f_le(sg + 1)), -1), (f_and(dif, f_le(-sg)), 1), (f_and(nod, less), -1), (f_and(nod, more), 1),
                 (f_and(nod, f_eq(la - lb)), 0)]
    lim = (1 << 63) - 1
    for s, v in H.call(within([st], f_le(la - lim), f_le(lb - lim)), k, args):
        for s2 in related(H, s, A, B, d, sg):
            answer(c, H, k, "order|" + name, s2, v, cases, w)
    H.nofail("inside|" + name, ("T",), w, R_IN)
    c.functions |= set(H.E.inlined)


def related(H, st, A, B, d, sg):
    """what the first difference says about the elements the path looked at"""
    at = {}
    for l in list(st.les) + list(st.nes) + list(st.sub.values()):
        for x in set(l.syms()):
            y = L.SYM[x]
            q = ai._NMI[y[1]] if y[0] == "n" else (None,)
            if q[0] == "elem" and len(q) == 3 and q[1] in (A, B):
                at[q[2]] = True
    for x in st.sub:
        y = L.SYM[x]
        q = ai._NMI[y[1]] if y[0] == "n" else (None,)
        if q[0] == "elem" and len(q) == 3 and q[1] in (A, B):
            at[q[2]] = True
    u8 = H.E.intty("u8")
    sts = [st]
    for i in at:
        x, y = (var(H.E.isym(ai.nm("elem", b, i), u8)) for b in (A, B))
        out = []
        for s in sts:
            out += within([s], f_le(i + 1 - d), f_eq(x - y))
            out += within([s], f_eq(i - d), f_le(sg + 1), f_le(x + 1 - y))
            out += within([s], f_eq(i - d), f_le(-sg), f_le(y + 1 - x))
            out += within([s], f_le(d + 1 - i))
        sts = out
    return sts


def short(c, k, la, lb):
    name = "%d,%d|%s" % (la, lb, k)
    w = c.P.where(c.P.one(k) or k)
    H = Hist(c, name)
    ea = [VInt(var(H.E.isym(ai.nm("given", "a", i), H.E.intty("u8")))) for i in range(la)]
    eb = [VInt(var(H.E.isym(ai.nm("given", "b", i), H.E.intty("u8")))) for i in range(lb)]
    r = setup(c, k, name, const(la), const(lb), None, ea, eb)
    if r is None:
        return
    H, st, args = r
    H.watch()
    n = min(la, lb)
    cases, same = [], []
    for i in range(n):
        p, q = ea[i].l, eb[i].l
        cases.append((f_and(*same, f_le(p + 1 - q)), 1 if k in (EQ, SW) else -1))
        cases.append((f_and(*same, f_le(q + 1 - p)), 1))
        same.append(f_eq(p - q))
    if k == EQ:
        last = 0 if la == lb else 1
    elif k == SW:
        last = 0 if lb <= la else 1
    else:
        last = (la > lb) - (la < lb)
    cases.append((f_and(*same) if same else ("T",), last))
    for s, v in H.call([st], k, args):
        answer(c, H, k, "order|" + name, s, v, cases, w)
    H.nofail("inside|" + name, ("T",), w, R_IN)
    c.functions |= set(H.E.inlined)
