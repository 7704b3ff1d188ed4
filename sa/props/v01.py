"""V01: what a version edit writes.  Histories of setters followed by encode_to, from unknown values; the encoder's own
operations (decided by C01-C03) are events, and the sequence of events must be one record per present field."""
from ..eq import *
from ..hist import Hist
from .. import ai, bits
from ..codec import within, ENC
from ..lin import const, var

LEVEL = "other"
CONFIRM = True
VE = "db::version_edit::VersionEdit::"
TAG = "db::version_edit::Tag"
R_SET = "each field that was set is written once, under its own tag and with its value, and nothing else is written"
R_ERR = "encoding reports success only if every write succeeded"
R_TAG = "tags are LevelDB's and translate both ways"
TAGS = {"k_comparator": 1, "kLogNumber": 2, "kNextFileNumber": 3, "kLastSequence": 4, "kCompactPointer": 5, "kDeletedFile": 6,
        "kNewFile": 7, "kPrevLogNumber": 9}
KIND = {"put_varint32": "v", "put_varint64": "v", "put_fixed32": "f4", "put_fixed64": "f8", "put_buf": "raw", "put_length_prefixed_slice": "lp"}
# setter -> (tag, payload: how argument i is written)
SET = {
    "set_comparator_name": (1, [("lp", 1)]),
    "set_log_number": (2, [("v", 1)]),
    "set_prev_log_number": (9, [("v", 1)]),
    "set_next_file": (3, [("v", 1)]),
    "set_last_sequence": (4, [("v", 1)]),
    "set_compact_pointer": (5, [("v", 1), ("lp", 2)]),
    "delete_file": (6, [("v", 1), ("v", 2)]),
    "add_file": (7, [("v", 1), ("v", 2), ("v", 3), ("lp", 4), ("lp", 5)]),
}
MANY = ("set_compact_pointer", "delete_file", "add_file")
SHAPE = {t: [k for k, _ in p] for t, p in SET.values()}


class Trace:
    def __init__(self, c, name):
        self.evs = []
        ms = {}
        for base in (ENC,):
            for fn, k in KIND.items():
                for pre in ("", "uncheck_"):
                    ms[base + pre + fn] = self.put(k, bool(pre))
        self.H = Hist(c, name, models=ms, unroll=6)

    def put(self, kind, plain):
        def m(E, st, fr, a, ci):
            v = a[1]
            if kind in ("raw", "lp"):
                v = self.H.arr(st, v)
            st = st.copy()
            self.evs.append((kind, v))
            st.ghost["ev"] = st.ghost.get("ev", ()) + (len(self.evs) - 1,)
            if plain:
                return [(st, VAgg(ci["dty"], ()))]
            out = [(st, VEnum(ci["dty"], 0, (VAgg(E.T[ci["dty"]]["vf"][0][0], ()),)))]
            if not st.ghost.get("failed"):
                bad = st.copy()
                bad.ghost["failed"] = True
                out.append((bad, VEnum(ci["dty"], 1, (E.mk(E.T[ci["dty"]]["vf"][1][0], ai.fresh_name("put error")),))))
            return out
        return m


def run(c):
    P = c.P
    for f in ("new", "encode_to", "clear"):
        if not c.need(VE + f):
            return
    for f in SET:
        if not c.need(VE + f):
            return
    w = P.where(P.one(VE + "encode_to"))
    runs = [("nothing", []), ("all", list(SET)), ("all reversed", list(SET)[::-1]), ("clear", list(SET) + ["clear"]), ("clear new", ["clear"])]
    runs += [(f, [f]) for f in SET]
    runs += [(f + " twice", [f, f]) for f in SET]
    runs += [("%s %s" % (a, b), [a, b]) for a in SET for b in SET if a != b and (c.tier != "quick" or a in MANY or b in MANY or a < b)]
    runs += [("cleared " + f, list(SET) + ["clear", f]) for f in SET]
    if c.tier != "quick":
        runs += [("%s %s %s" % (a, b, d), [a, b, d]) for a in SET for b in SET for d in MANY]
    for tag, fs in runs:
        history(c, tag, fs, w)
    for ctor, f in (("new_with_log_number", "set_log_number"), ("new_with_prev_log_number", "set_prev_log_number")):
        if c.need(VE + ctor):
            history(c, ctor, [], w, (ctor, f))
    tags(c)


def history(c, tag, fs, w, ctor=None):
    T = Trace(c, "edit|" + tag)
    H = T.H
    H.watch()
    want = []
    if ctor:
        a = [H.given(H.argty(VE + ctor[0], 0), "%s 0" % ctor[0])]
        rs = H.call([ai.State()], VE + ctor[0], a)
        want = [(SET[ctor[1]][0], [(k, a[0]) for k, _ in SET[ctor[1]][1]])]
    else:
        rs = H.call([ai.State()], VE + "new", [])
    sts = []
    for s, v in rs:
        s, p = H.place(s, "edit", v)
        sts.append(s)
    for n, f in enumerate(fs):
        key = H.P.one(VE + f)
        fn = H.P.fns[key]
        args = [p] + [H.given(fn["locals"][i + 1][0], "%s %d %d" % (f, n, i)) for i in range(1, fn["argc"])]
        sts = [s for s, _ in H.call(sts, VE + f, args)]
        if f == "clear":
            want = []
            continue
        t, pay = SET[f]
        if f not in MANY:
            want = [x for x in want if x[0] != t]
        want.append((t, [(k, args[i]) for k, i in pay]))
    if not c.anchor(sts, "an edit after " + tag):
        return
    tt = H.argty(VE + "encode_to", 1)
    out = []
    n = 0
    vt = H.E.pointee(tt)
    for s in sts:
        s, tp = H.place(s, "target", H.given(vt, "target"), vt)
        for s2, r in H.call([s], VE + "encode_to", [p, tp]):
            n += 1
            v = H.vname(r)
            if s2.ghost.get("failed"):
                if v == "Ok":
                    H.ask("err|" + tag, s2, F, w, R_ERR, "a failed write is not reported")
                elif v is None:
                    c.ob("err|" + tag, False, w, R_ERR, "result unknown", undecided=True)
                else:
                    c.ob("err|" + tag, True, w, R_ERR)
                continue
            if v == "Err":
                H.ask("err|" + tag, s2, F, w, R_ERR, "an error although every write succeeded")
                continue
            compare(c, H, T, s2, want, tag, w)
    H.nofail("ok|" + tag, T_, w, R_SET, "encoding completes", skip=lambda kind, what, f: "capacity" in what)
    c.anchor(n, "a result of encode_to after " + tag)
    c.functions |= set(H.E.inlined)


T_ = ("T",)


def compare(c, H, T, s, want, tag, w):
    evs = [T.evs[i] for i in s.ghost.get("ev", ())]
    # split into records: a constant tag, then the payload that tag has
    recs, i = [], 0
    key = "rec|" + tag
    hav = bool(s.ghost.get("havoc"))
    while i < len(evs):
        k, v = evs[i]
        t = s.const_of(v.l) if k == "v" and isinstance(v, VInt) else None
        if t is None:
            if k == "v":
                return c.ob(key, False, w, R_SET, "a tag of unknown value is written", undecided=True)
            return ask_bad(c, H, s, key, w, "a record begins with %s instead of a tag" % k, hav)
        if t not in SHAPE:
            return ask_bad(c, H, s, key, w, "unknown tag %d" % t, hav)
        sh = SHAPE[t]
        pay = evs[i + 1:i + 1 + len(sh)]
        if [x[0] for x in pay] != sh:
            if any(x[0] == "raw" for x in pay):
                return c.ob(key, False, w, R_SET, "tag %d followed by raw bytes" % t, undecided=True)
            return ask_bad(c, H, s, key, w, "tag %d is followed by %s, not %s" % (t, [x[0] for x in pay], sh), hav)
        recs.append((t, pay))
        i += 1 + len(sh)
    a, b = sorted(t for t, _ in recs), sorted(t for t, _ in want)
    if a != b:
        return ask_bad(c, H, s, key, w, "tags written: %s, expected: %s" % (a, b), hav)
    c.ob(key, True, w, R_SET)
    for t in sorted(set(b)):
        R, W = [p for x, p in recs if x == t], [p for x, p in want if x == t]
        for n, (p, q) in enumerate(zip(R, W)):
            for m, ((k, got), (_, exp)) in enumerate(zip(p, q)):
                kk = "val|%s|tag %d|%d.%d" % (tag, t, n, m)
                if k == "v":
                    e = exp if isinstance(exp, VInt) else H.E.mk(exp.ty, exp.s)
                    H.same_val(kk, s, got, e, w, R_SET, "value %d of the record with tag %d" % (m, t))
                else:
                    bytes_same(H, kk, s, got, H.arr(s, exp), w, "bytes of the record with tag %d" % t)


def bytes_same(H, key, s, a, b, w, detail, rule=R_SET):
    if a is None or b is None:
        return H.c.ob(key, False, w, rule, detail + ": not determined", undecided=True)
    H.ask(key, s, f_eq(a[2] - b[2]), w, rule, detail + ": length")
    j = H.int("usize", "j").l
    for s2 in within([s], f_eq(a[2] - b[2]), f_le(j + 1 - b[2])):
        H.same_val(key, s2, H._el(s2, a, j), H._el(s2, b, j), w, rule, detail)


def ask_bad(c, H, s, key, w, d, hav):
    """a wrong trace counts when the path exists"""
    return H.ask(key, s, F, w, R_SET, d)


def tags(c):
    P = c.P
    g, f = TAG + "::get_value", TAG + "::from_value"
    if not c.need(g) or not c.need(f):
        return
    H = Hist(c, "tag")
    ti = H.E.pointee(H.argty(g, 0))
    a = P.adts[P.types[ti]["def"]]
    names = [v["name"] for v in a["variants"]]
    w = P.where(P.one(g))
    for n, val in TAGS.items():
        if not c.anchor(n in names, "Tag::" + n):
            continue
        e = VEnum(ti, names.index(n), ())
        s, p = H.place(ai.State(), "tag", e)
        for s2, r in H.call([s], g, [p]):
            H.ask("tag|value|" + n, s2, f_eq(r.l - val), w, R_TAG, "the value of " + n)
        for s2, r in H.call([ai.State()], f, [VInt(const(val))]):
            ok = H.vname(r) == "Some" and H.vname(r.fs[0]) == n
            c.ob("tag|from|" + n, ok, P.where(P.one(f)), R_TAG, "from_value(%d) is not %s" % (val, n), undecided=not ok and (H.vname(r) is None or bool(s2.ghost.get("havoc"))))
    x = H.int("u32", "tag")
    for s, r in H.call([ai.State()], f, [x]):
        if H.vname(r) == "Some":
            vs = [TAGS.get(H.vname(r.fs[0]))]
            if vs[0] is not None:
                H.ask("tag|only|" + H.vname(r.fs[0]), s, f_eq(x.l - vs[0]), P.where(P.one(f)), R_TAG, "a number read as " + H.vname(r.fs[0]))
