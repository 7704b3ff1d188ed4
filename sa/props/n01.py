"""N01: the doubly linked list against a reference list.

Every sequence of insertions up to a bound is run by the abstract interpreter on unknown elements, with unknown positions; every
allocation is an object of its own.  After each step length and every get / get_mut position are compared with the reference, and the
links are walked both ways.  Then the list is dropped: each node is freed exactly once, and nothing freed is read or written."""
from ..eq import *
from ..hist import Hist
from .. import ai
from ..codec import within
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
LL = "<util::linked_list::LinkedList<T> as util::linked_list::LinkedListBuilder<T>>::"
DROP = "<util::linked_list::LinkedList<T> as std::ops::Drop>::drop"
AD, ND = "util::linked_list::LinkedList", "util::linked_list::Node"
R_LEN = "length is the number of elements"
R_GET = "get returns the element at the position, or an error past the end"
R_INS = "an insertion within the list succeeds, one past the end is refused and changes nothing"
R_LINK = "the list reads the same forwards and backwards"
R_OWN = "every node is freed exactly once, and none is used after"
R_OK = "no operation on a well-formed list fails"
TT = ("T",)


class Heap:
    """what is freed; a second free or a use afterwards is a failure"""

    def __init__(self):
        self.E = None

    def event(self, E, st, fr, what, a):
        pass

    def drop(self, E, st, fr, v, ty, where):
        t = E.T[ty] if ty is not None else {}
        if t.get("def") == "std::boxed::Box" and isinstance(v, VPtr) and not v.p:
            s = st.copy()
            f = dict(s.ghost.get("freed", ()))
            if v.o in f:
                E.fails is not None and E.fails.append((st, "oob", "freed twice", fr.fn if hasattr(fr, "fn") else "drop", ""))
                return []
            f[v.o] = 1
            s.ghost["freed"] = tuple(sorted(f.items(), key=repr))
            return [s]
        return None

    def __getattr__(self, n):
        return lambda *a, **k: None


def run(c):
    P = c.P
    for f in ("new", "length", "add_first", "add_last", "add_by_position", "get", "get_mut"):
        if not c.need(LL + f):
            return
    W = lambda f: P.where(P.one(LL + f))
    c.need(DROP)
    depth = 4 if c.tier == "quick" else 6
    c.extra["operations per history"] = depth
    H = Hist(c, "list", Heap(), exact=True, unroll=24)
    H.E.MAXD = 400
    guard(H)
    et = ty_of_arg(P, P.one(LL + "add_first"), 1)
    sts, p = [], None
    for s, v in H.call([ai.State()], LL + "new", []):
        s, p = H.place(s, "list", v)
        sts.append(s)
    c.anchor(sts, "an empty list")
    ops = [f for f in ("add_first", "add_last", "add_by_position", "add", "push", "pop_first", "pop_last", "pop")
           if c.P.one(LL + f) and not stub(H, sts, p, LL + f)]
    c.extra["operations"] = ops
    for s in sts:
        step(c, H, s, p, (), "", depth, et, ops, W)
    c.functions |= set(H.E.inlined)
    c.floor("nodes of the history tree", c.extra.get("histories", 0), 40)


def stub(H, sts, p, k):
    """not implemented in this tree: never returns"""
    P = H.P
    f = P.fns[P.one(k)]
    return f["argc"] == 1 and not any(b["t"].get("ret") is not None or "ret" in b["t"] if isinstance(b["t"], dict) else b["t"] == "ret" for b in f["blocks"] if not b["c"])


def guard(H):
    E = H.E
    rd, wr = E.read, E.write

    def dead(st, o):
        return any(x == o for x, _ in st.ghost.get("freed", ()))

    def read(st, o, p, *a, **k):
        if dead(st, o) and E.fails is not None:
            E.fails.append((st, "oob", "use of a freed node", "", ""))
        return rd(st, o, p, *a, **k)

    def write(st, o, p, *a, **k):
        if dead(st, o) and E.fails is not None:
            E.fails.append((st, "oob", "write to a freed node", "", ""))
        return wr(st, o, p, *a, **k)
    E.read, E.write = read, write


def step(c, H, st, p, ref, tag, depth, et, ops, W):
    """ref: the elements the list must hold in state st"""
    c.extra["histories"] = c.extra.get("histories", 0) + 1
    look(c, H, st, p, ref, tag, W)
    if depth == 0:
        return
    n = len(ref)
    for f in ops:
        if f in ("add", "push", "pop") and (depth < 2 or n > 2):
            continue
        t = tag + " " + f
        H.watch()
        if f.startswith("pop"):
            rs = H.call([st], LL + f, [p])
            H.nofail("ok|" + f, TT, W(f), R_OK)
            for s, v in rs:
                want = "Some" if ref else "None"
                popped(c, H, s, v, ref, f, t, W)
                step(c, H, s, p, ref[1:] if f == "pop_first" else ref[:-1], t, depth - 1, et, ops, W)
            continue
        x = H.E.mk(et, ai.nm("given", "element", t))
        if f == "add_by_position":
            k = var(H.E.isym(ai.nm("given", "position", t), H.E.usz))
            rs = H.call([st], LL + f, [p, VInt(k), x])
            H.nofail("ok|" + f, TT, W(f), R_OK, t)
            for s, v in rs:
                name = H.vname(v)
                for i in range(n + 1):
                    for s2 in s.assume(f_eq(k - i)):
                        c_or(H, "insert|" + f, s2, name == "Ok", name is None, W(f), R_INS, "%s for position %d of %d" % (name, i, n))
                        if name == "Ok":
                            step(c, H, s2, p, ref[:i] + (x,) + ref[i:], t + "@%d" % i, depth - 1, et, ops, W)
                for s2 in s.assume(f_le(const(n + 1) - k)):
                    c_or(H, "insert|" + f, s2, name == "Err", name is None, W(f), R_INS, "%s past the end" % name)
                    look(c, H, s2, p, ref, t + "@past", W)
            continue
        rs = H.call([st], LL + f, [p, x])
        H.nofail("ok|" + f, TT, W(f), R_OK, t)
        for s, v in rs:
            if f not in ("add", "push"):
                name = H.vname(v)
                c_or(H, "insert|" + f, s, name == "Ok", name is None, W(f), R_INS, "%s" % name)
            new = ref + (x,) if f in ("add", "add_last") else (x,) + ref
            step(c, H, s, p, new, t, depth - 1 if f in ("add_first", "add_last") else 0, et, ops, W)


def c_or(H, key, s, ok, und, w, rule, detail):
    if ok or und:
        return H.c.ob(key, ok, w, rule, detail, undecided=und)
    H.ask(key, s, ("F",), w, rule, detail)


def popped(c, H, s, v, ref, f, t, W):
    name = H.vname(v)
    c_or(H, "pop|" + f, s, name == ("Some" if ref else "None"), name is None, W(f), "pop returns the end element", t)
    if ref and name == "Some":
        same(c, H, "pop value|" + f, s, v.fs[0], ref[0] if f == "pop_first" else ref[-1], W(f), "pop returns the end element", t)


def same(c, H, key, s, got, want, w, rule, detail):
    if got == want or H.E.vkey(s, got) == H.E.vkey(s, want):
        return c.ob(key, True, w, rule)
    known = isinstance(got, VOp) and "element" in repr(ai._NMI[got.s] if isinstance(got.s, int) and got.s < len(ai._NMI) else got.s)
    if known:
        return H.ask(key, s, ("F",), w, rule, detail + ": another element")
    c.ob(key, False, w, rule, detail + ": the element is not modelled: %r" % (got,), undecided=True)


def look(c, H, st, p, ref, tag, W):
    """compare everything observable with the reference"""
    n = len(ref)
    H.watch()
    for s, v in H.call([st], LL + "length", [p]):
        H.same_val("length|%s" % last(tag), s, v, VInt(const(n)), W("length"), R_LEN, "after%s" % tag)
    H.nofail("ok|length", TT, W("length"), R_OK)
    for f in ("get", "get_mut"):
        k = H.int("usize", "look at").l
        H.watch()
        for s, v in H.call([st], LL + f, [p, VInt(k)]):
            name = H.vname(v)
            for s2 in s.assume(f_le(const(n) - k)):
                c_or(H, "%s past|%s" % (f, last(tag)), s2, name == "Err", name is None, W(f), R_GET, "%s past the end, after%s" % (name, tag))
            for i in range(n):
                for s2 in s.assume(f_eq(k - i)):
                    o = v.fs[0] if name == "Ok" else None
                    on = H.vname(o) if o is not None else None
                    if name is None or (name == "Ok" and on is None):
                        c.ob("%s|%s" % (f, last(tag)), False, W(f), R_GET, "not modelled", undecided=True)
                    elif name != "Ok" or on != "Some":
                        c_or(H, "%s|%s" % (f, last(tag)), s2, False, False, W(f), R_GET, "%s %s at %d of %d, after%s" % (name, on, i, n, tag))
                    else:
                        x = o.fs[0]
                        x = H.E.read(s2, x.o, x.p) if isinstance(x, VPtr) else None
                        same(c, H, "%s|%s" % (f, last(tag)), s2, x, ref[i], W(f), R_GET, "position %d of %d after%s" % (i, n, tag))
        H.nofail("ok|" + f, TT, W(f), R_OK, "after" + tag)
    links(c, H, st, p, ref, tag, W)
    dropped(c, H, st, p, ref, tag, W)


def last(tag):
    return tag.split(" ")[-1] if tag else "new"


def node(H, s, v):
    """the object behind an Option<NonNull<Node>>; None: nothing; False: not modelled"""
    n = H.vname(v)
    if n == "None":
        return None
    if n != "Some":
        return False
    v = v.fs[0]
    for _ in range(4):
        if isinstance(v, VPtr):
            return v
        if isinstance(v, VAgg) and len(v.fs) == 1:
            v = v.fs[0]
    return False


def links(c, H, st, p, ref, tag, W):
    P = H.P
    fs = {x: fidx(P, AD, x) for x in ("head", "tail")}
    nf = {x: fidx(P, ND, x) for x in ("prev", "next", "val")}
    if None in fs.values() or None in nf.values():
        return c.ob("links|%s" % last(tag), False, W("get"), R_LINK, "the fields are not head, tail, prev, next, val", undecided=True)
    n = len(ref)
    lv = H.E.read(st, p.o, p.p)
    for start, nxt, order in (("head", "next", ref), ("tail", "prev", ref[::-1])):
        key = "links|%s|%s" % (nxt, last(tag))
        v = H.E.read(st, p.o, p.p + (("f", fs[start]),))
        for i in range(n + 1):
            x = node(H, st, v)
            if x is False:
                c.ob(key, False, W("get"), R_LINK, "a link is not modelled", undecided=True)
                break
            if (x is None) != (i == n):
                c_or(H, key, st, False, False, W("get"), R_LINK, "%d elements along %s, %d inserted, after%s" % (i if x is None else i + 1, nxt, n, tag))
                break
            if x is None:
                c.ob(key, True, W("get"), R_LINK)
                break
            same(c, H, key, st, H.E.read(st, x.o, x.p + (("f", nf["val"]),)), order[i], W("get"), R_LINK, "element %d along %s after%s" % (i, nxt, tag))
            v = H.E.read(st, x.o, x.p + (("f", nf[nxt]),))


def dropped(c, H, st, p, ref, tag, W):
    k = H.P.one(DROP)
    if not k:
        return
    w = H.P.where(k)
    H.watch()
    n = 0
    for s, v in H.call([st], DROP, [p]):
        n += 1
        nodes = len(s.ghost.get("freed", ()))
        c_or(H, "drop|%s" % last(tag), s, nodes == len(ref), False, w, R_OWN, "%d nodes freed of %d, after%s" % (nodes, len(ref), tag))
    if not n and not H.E.fails:
        c.ob("drop|%s" % last(tag), False, w, R_OWN, "drop not modelled", undecided=True)
    H.nofail("drop ok", TT, w, R_OWN, "after" + tag)
