"""The skip list run on bounded histories of insertions.

Keys are unknown byte strings; which of two keys is the greater is fixed by the history (a rank per key), so that the comparator is an
arbitrary one consistent with the history.  The coin that decides a node's height is scripted by the history.  Nodes are objects of
their own; the array of links a node gets from the arena is an array of unknown pointers."""
from .eq import *
from .hist import Hist
from . import ai
from .lin import const, var

SL = "db::skip_list::SkipList::<Cmp>::"
IT = "<db::skip_list::Iter<Cmp> as traits::iterator::DataIterator>::"
ITN = "<db::skip_list::Iter<Cmp> as std::iter::Iterator>::next"
NODE = "db::skip_list::Node"
LINKS = "db::skip_list::allocate_next_elems"
MAXL = 8


class Lost(Exception):
    pass


class World:
    def __init__(self, c):
        P = c.P
        self.c, self.P = c, P
        self.rank = {}       # object of a key's bytes -> rank
        self.node = [i for i, t in enumerate(P.types) if t and t.get("def") == NODE and t["k"] == "adt"]
        H = Hist(c, "skip list", models={"traits::comparator_trait::Comparator::compare": self.compare, "rand::random": self.coin,
                                         LINKS: self.links}, exact=True, unroll=64)
        H.E.MAXD = 400
        self.H = H
        self.keyty = ty_of_arg(P, P.one(SL + "insert"), 1)

    # ---- what the list is built on
    def compare(self, E, st, fr, a, ci):
        r = []
        for v in a[1:3]:
            o = v.o if isinstance(v, (VFat, VVec)) else None
            if o and o[0] == "deref" and isinstance(o[1], ai.Nm) and ai._NMI[o[1]][0] == "rawview":
                q = ai._NMI[o[1]][1]
                o = q.o if isinstance(q, VPtr) else o
            r.append(self.rank.get(o))
        ot = E.T[ci["dty"]]["vf"][1][0]
        if None in r:
            return [(st, E.mk(ci["dty"], ai.fresh_name("order")))]
        from .models import ordering
        return [(st, VEnum(ci["dty"], 1, (ordering(E, ot, (r[0] > r[1]) - (r[0] < r[1])),)))]

    def coin(self, E, st, fr, a, ci):
        if E.T[ci["dty"]]["k"] != "bool":
            return [(st, E.mk(ci["dty"], ai.fresh_name("random")))]
        s = st.copy()
        q = s.ghost.get("coins", ())
        s.ghost["coins"] = q[1:]
        return [(s, VBool(T if q and q[0] else F))]

    def links(self, E, st, fr, a, ci):
        s = st.copy()
        n = s.ghost.get("links", 0)
        s.ghost["links"] = n + 1
        o = ("deref", ai.nm("hist", "links", n))
        et = E.T[ci["dty"]]["e"]
        s.mem[o] = VArr(et, const(MAXL), (), ai.nm("uninitialised links", n))
        return [(s, VPtr(o, (("i", const(0)),)))]

    # ---- values
    def key(self, r, copy=0):
        """a key of rank r; copy distinguishes equal keys"""
        v = self.H.given(self.keyty, "key of rank %d %s" % (r, copy))
        s, p = self.H.place(ai.State(), "k%d %s" % (r, copy), v)
        return v

    def learn(self, st, v, r):
        """note the object of the key's bytes"""
        E = self.H.E
        x = v if not isinstance(v, VOp) else E.expand(v)
        for f in getattr(x, "fs", ()):
            f = E.mk(f.ty, f.s) if isinstance(f, VOp) and f.ty is not None else f
            if isinstance(f, (VPtr, VFat, VVec)):
                self.rank[f.o] = r
                return True
        return False

    # ---- structure
    def fields(self, st, v, k):
        E = self.H.E
        if isinstance(v, VOp):
            v = E.expand(v)
        return [f for f in getattr(v, "fs", ()) if k(f)]

    def isnode(self, v):
        return isinstance(v, VPtr) and not v.p

    def parts(self, st, n):
        """(key or None, links or None, level) of the node at pointer n"""
        E = self.H.E
        v = E.obj(st, n.o)
        if not isinstance(v, VAgg) or v.ty not in self.node:
            raise Lost("a link leads to something that is not a node")
        key = links = lev = False
        for f in v.fs:
            if isinstance(f, VEnum):
                key = f.fs[0] if f.fs else None
            elif isinstance(f, VInt):
                lev = st.norm(f.l)
            elif isinstance(f, VPtr):
                x = E.obj(st, f.o)
                links = x if isinstance(x, VArr) else None
            else:
                links = None
        if key is False or lev is False or not lev.is_const():
            raise Lost("a node is not determined")
        return key, links, lev.c

    def ends(self, st, me):
        """(head, tail) of the list"""
        v = self.H.E.obj(st, me.o)
        ns = [f for f in getattr(v, "fs", ()) if self.isnode(f) and isinstance(self.H.E.obj(st, f.o), VAgg) and self.H.E.obj(st, f.o).ty in self.node]
        if len(ns) != 2:
            raise Lost("the sentinels are not determined")
        h = [n for n in ns if isinstance(self.parts(st, n)[1], VArr)]
        t = [n for n in ns if not isinstance(self.parts(st, n)[1], VArr)]
        if len(h) != 1 or len(t) != 1:
            raise Lost("the sentinels are not determined")
        return h[0], t[0]

    def chain(self, st, me, l):
        """nodes met at level l, or text when the chain is broken"""
        h, t = self.ends(st, me)
        out, n = [], h
        for _ in range(40):
            x = self.parts(st, n)[1]
            if not isinstance(x, VArr):
                return "a node without links is met at level %d" % l
            p = dict(x.els).get(l)
            if p is None:
                return "an unset link is met at level %d" % l
            if isinstance(p, VOp):
                raise Lost("a link is not determined")
            if not self.isnode(p):
                raise Lost("a link is not determined: %r" % (p,))
            if p.o == t.o:
                return out
            if any(p.o == q.o for q in out) or p.o == h.o:
                return "level %d is a cycle" % l
            out.append(p)
            n = p
        return "level %d does not end" % l

    def rank_of(self, st, n):
        k = self.parts(st, n)[0]
        E = self.H.E
        if k is None:
            return None
        x = E.expand(k) if isinstance(k, VOp) else k
        for f in getattr(x, "fs", ()):
            f = E.mk(f.ty, f.s) if isinstance(f, VOp) and f.ty is not None else f
            if isinstance(f, (VPtr, VFat, VVec)) and f.o in self.rank:
                return self.rank[f.o]
        raise Lost("the key of a node is not determined")

    # ---- operations
    def new(self):
        H, P = self.H, self.P
        f = P.one(SL + "create")
        a = [H.given(ty_of_arg(P, f, i), "list argument %d" % i) for i in range(2)]
        out = []
        for s, v in H.call([ai.State()], f, a):
            out.append(H.place(s, "list", v))
        return out

    def insert(self, s, me, r, h, copy=0):
        k = self.key(r, copy)
        if not self.learn(s, k, r):
            raise Lost("the bytes of a key are not determined")
        s = s.copy()
        s.ghost["coins"] = (True,) * (h - 1)
        return self.H.call([s], SL + "insert", [me, k])


def console(kind, what, fn):
    return "unwrap_failed" in what or "Arena" in str(fn) or "arena" in str(fn)
