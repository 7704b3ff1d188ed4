"""J01: build_table over ghost files, iterators and table builders.

build_table is run by the abstract interpreter on an input iterator of 0 to 3 entries (5 in thorough) standing anywhere; the table builder, the file, the
environment and the table cache answer success or failure, each in every combination, and record what is asked of them.  Where
build_table reports success every entry must have been added once and in order, the builder finished after them, the file synced
after that, and no failure have happened on the way; entries are read only while the iterator stands on one."""
from ..eq import *
from ..hist import Hist
from .. import ai
from ..lin import const, var

LEVEL = "other"
CONFIRM = False
K = "db::builder::BuildTable::build_table"
IT = "traits::iterator::DataIterator::"
TB = "table::table_builder::TableBuilder::"
R_READ = "an entry is read only while the iterator is valid"
R_ALL = "success means that every entry of the input was added, once and in order"
R_FIN = "success means that the table was finished without error after its last entry"
R_SYNC = "success means that the file was synced without error after the table was finished"
R_ERR = "success means that no step on the way, and neither iterator, failed"
R_OK = "a build in which nothing fails succeeds"


class World:
    def __init__(self, c):
        self.c = c
        self.names = {}
        P = c.P
        m = {}
        for n in ("valid", "seek_to_first", "seek_to_last", "seek", "next", "pre", "key", "value", "status"):
            m[IT + n] = getattr(self, "i_" + n)
        for n in ("new_with_writable_file", "add", "flush", "status", "finish", "abandon", "get_num_entries", "get_file_size"):
            m[TB + n] = getattr(self, "b_" + n)
        m["db::db_format::InternalKey::decode_from"] = self.unit
        m["db::filename::FileName::table_file_name"] = self.opaque("file name")
        m["table::table::Table::new"] = self.opaque("table")
        m["util::env::Env::new_writable_file"] = lambda E, st, fr, a, ci: self.result(E, st, ci, "open", "file")
        m["db::table_cache::TableCache::new_iterator"] = lambda E, st, fr, a, ci: self.result(E, st, ci, "verify", "check iterator")
        m["std::fs::File::sync_data"] = m["std::fs::File::sync_all"] = lambda E, st, fr, a, ci: self.result(E, st, ci, "sync", "")
        self.H = Hist(c, "build", models=m, exact=True, unroll=16)
        self.H.E.MAXD = 400
        self.okst = {}

    # ---- answers
    def ev(self, st, *e):
        s = st.copy()
        s.ghost["ev"] = s.ghost.get("ev", ()) + (e,)
        return s

    def unit(self, E, st, fr, a, ci):
        return [(st, VAgg(ci["dty"], ()))]

    def opaque(self, what):
        def f(E, st, fr, a, ci):
            return [(st, E.mk(ci["dty"], ai.nm("given", what)))]
        return f

    def result(self, E, st, ci, what, val):
        ti = ci["dty"]
        t = E.T[ti]
        ok, er = variant(E.P, ti, "Ok"), variant(E.P, ti, "Err")
        o = VEnum(ti, ok, tuple(E.mk(x, ai.nm("given", val)) if val else VAgg(x, ()) for x in t["vf"][ok]))
        r = VEnum(ti, er, tuple(E.mk(x, ai.nm("given", "error of " + what)) if "Status" not in E.T[x]["s"] else self.stat(E, x, False)
                                for x in t["vf"][er]))
        return [(self.ev(st, what, True), o), (self.ev(st, what, False), r)]

    def stat(self, E, ti, good):
        """a Status value"""
        fs = []
        for x in E.T[ti]["vf"][0]:
            if E.T[x]["s"].endswith("LevelError"):
                fs.append(VEnum(x, variant(E.P, x, "KOk" if good else "KIOError"), ()))
            else:
                fs.append(E.mk(x, ai.nm("given", "message")))
        return VAgg(ti, tuple(fs))

    # ---- iterators
    def mine(self, a):
        return "check iterator" not in repr(a[0])

    def pos(self, st):
        return st.ghost["pos"]

    def at(self, st, p):
        s = st.copy()
        s.ghost["pos"] = p
        return s

    def i_valid(self, E, st, fr, a, ci):
        if not self.mine(a):
            return [(st, E.mk(ci["dty"], ai.nm("given", "check valid")))]
        return [(st, VBool(("T",) if 0 <= self.pos(st) < self.n else ("F",)))]

    def i_seek_to_first(self, E, st, fr, a, ci):
        return self.unit(E, self.at(st, 0) if self.mine(a) else st, fr, a, ci)

    def i_seek_to_last(self, E, st, fr, a, ci):
        return self.unit(E, self.at(st, self.n - 1) if self.mine(a) else st, fr, a, ci)

    def i_seek(self, E, st, fr, a, ci):
        return [r for p in range(self.n + 1) for r in self.unit(E, self.at(st, p) if self.mine(a) else st, fr, a, ci)]

    def move(self, d):
        def f(E, st, fr, a, ci):
            if not self.mine(a):
                return self.unit(E, st, fr, a, ci)
            p = self.pos(st)
            if not 0 <= p < self.n:
                E.fails is not None and E.fails.append((st, "oob", "the iterator is moved while not valid", fr.fn["path"], fr.line))
                return self.unit(E, st, fr, a, ci)
            return self.unit(E, self.at(st, p + d), fr, a, ci)
        return f
    i_next = property(lambda s: s.move(1))
    i_pre = property(lambda s: s.move(-1))

    def entry(self, what):
        def f(E, st, fr, a, ci):
            p = self.pos(st) if self.mine(a) else "x"
            if self.mine(a) and not 0 <= p < self.n and E.fails is not None:
                E.fails.append((st, "oob", "the %s is read while the iterator is not valid" % what, fr.fn["path"], fr.line))
            v = E.mk(ci["dty"], ai.nm("given", "%s %s" % (what, p)))
            self.names[what, p] = v
            return [(st, v)]
        return f
    i_key = property(lambda s: s.entry("key"))
    i_value = property(lambda s: s.entry("value"))

    def i_status(self, E, st, fr, a, ci):
        g = "status of the input" if self.mine(a) else "status of the check"
        if g in st.ghost:
            return [(st, self.stat(E, ci["dty"], st.ghost[g]))]
        out = []
        for good in (True, False):
            s = self.ev(st, g, good)
            s.ghost[g] = good
            out.append((s, self.stat(E, ci["dty"], good)))
        return out

    # ---- the table builder
    def b_new_with_writable_file(self, E, st, fr, a, ci):
        return [(self.ev(st, "builder", True), E.mk(ci["dty"], ai.nm("given", "builder")))]

    def b_add(self, E, st, fr, a, ci):
        vs = []
        for x in a[1:3]:
            if isinstance(x, VPtr):
                x = E.read(st, x.o, x.p)
            vs.append(x)
        return self.unit(E, self.ev(st, "add", tuple(vs)), fr, a, ci)

    def b_flush(self, E, st, fr, a, ci):
        return self.unit(E, st, fr, a, ci)

    b_abandon = b_flush

    def b_status(self, E, st, fr, a, ci):
        return [(st, self.stat(E, ci["dty"], True))]

    def b_finish(self, E, st, fr, a, ci):
        return [(self.ev(st, "finish", g), self.stat(E, ci["dty"], g)) for g in (True, False)]

    def b_get_num_entries(self, E, st, fr, a, ci):
        return [(st, VInt(const(sum(1 for e in st.ghost.get("ev", ()) if e[0] == "add"))))]

    def b_get_file_size(self, E, st, fr, a, ci):
        n = var(E.isym(ai.nm("given", "file size"), ci["dty"]))
        return [(s, VInt(n)) for s in st.assume(f_le(const(1) - n))]


def run(c):
    P = c.P
    key = c.need(K)
    if not key:
        return
    for f in ("add", "finish", "new_with_writable_file"):
        c.need(TB + f)
    w = P.where(key)
    good = 0
    top = 3 if c.tier == "quick" else 5
    for n in range(top + 1):
        for start in range(n + 1):
            W = World(c)
            W.n = n
            H = W.H
            st = ai.State()
            st.ghost["pos"] = start
            sts = []
            args = []
            for i in range(P.fns[key]["argc"]):
                ti = ty_of_arg(P, key, i)
                if P.types[ti]["k"] == "ref" and "FileMetaData" in P.types[ti]["s"]:
                    st, p = H.place(st, "meta", H.given(H.E.pointee(ti), "meta"), H.E.pointee(ti))
                    args.append(p)
                elif "DataIterator" in P.types[ti]["s"]:
                    args.append(H.given(ti, "input iterator"))
                else:
                    args.append(H.given(ti, "argument %d" % i))
            for g in (True, False):
                s = st.copy()
                s.ghost["status of the input"] = g
                s.ghost["ev"] = (("the input", g),)
                sts.append(s)
            H.watch()
            tag = "%d entries" % n
            for s, v in H.call(sts, key, args):
                if not isinstance(v, VEnum):
                    c.ob("result|" + tag, False, w, R_ERR, "the result is not known", undecided=True)
                    continue
                ev = s.ghost.get("ev", ())
                bad = [e[0] for e in ev if e[1] is False]
                if s.ghost.get("havoc"):
                    c.ob("result|" + tag, False, w, R_ERR, "memory is not known", undecided=True)
                    continue
                if vname(P, v) != "Ok":
                    c.ob("works|" + tag, bool(bad), w, R_OK, "nothing failed, but building reports an error")
                    continue
                good += 1
                c.ob("error|" + tag, not bad, w, R_ERR, "failed, but success is reported: " + ", ".join(bad))
                adds = [e[1] for e in ev if e[0] == "add"]
                want = [(W.names.get(("key", i)), W.names.get(("value", i))) for i in range(n)]
                known = all(isinstance(x, VOp) or x in W.names.values() for a in adds for x in a)
                c.ob("entries|" + tag, adds == [tuple(x) for x in want], w, R_ALL,
                     "added: " + (", ".join(name(W, a) for a in adds) or "nothing"), undecided=not known)
                if n:
                    names = [e[0] for e in ev]
                    fin = names.index("finish") if "finish" in names else None
                    la = max([i for i, x in enumerate(names) if x == "add"] or [-1])
                    c.ob("finished|" + tag, fin is not None and fin > la, w, R_FIN, "steps: " + ", ".join(names))
                    c.ob("synced|" + tag, fin is not None and "sync" in names[fin:], w, R_SYNC, "steps: " + ", ".join(names))
            H.nofail("valid|" + tag, ("T",), w, R_READ, "start at %d" % start, skip=lambda kind, what, fn: "not valid" not in what)
            c.functions |= set(H.E.inlined)
    c.floor("successful builds", good, top + 1)


def name(W, a):
    return "(" + ", ".join(next(("%s %s" % k for k, v in W.names.items() if v == x), "?") for x in a) + ")"
