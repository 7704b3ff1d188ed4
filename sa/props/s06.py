"""Error-flow typestate.  Every call that can fail (a Result with an I/O or Status error, or a Status by value) is followed
along all control-flow paths: on the arm where it failed, and on paths where its outcome was never looked at, the enclosing
function must not return success (it must return the error, another error, or panic), unless the same call is repeated first.
A write or read through a std::io trait whose byte count is discarded is reported as well (writes into a Vec are complete)."""
import re
from .. import q

ERRS = re.compile(r"^(util::status::Status|std::io::Error|std::alloc::LayoutError)$")
STATUS = "util::status::Status"
INTERRUPTED = ("Interrupted", "UnexpectedEof")
CTORS = re.compile(r"^(util::status::(Status|LevelError)::|<util::status::Status as)|FromResidual|convert::(Into|From)|::unwrap|::expect|Clone>?::clone")


def err_type(P, ti):
    t = P.types[ti]
    if t["k"] == "adt" and t["def"] == "std::result::Result":
        a = q.adt_arg(t, 1)
        return P.types[a]["s"] if a is not None else None
    return None


def fallible(P, t):
    ti = t["dt"]
    ty = P.types[ti]
    if any(re.search(r"FromResidual|ops::Try|::map_err|::map$|::and_then|::or_else|convert::(Into|From)|Clone", x) for x in q.names(t)):
        return None
    e = err_type(P, ti)
    if e is not None and (ERRS.match(e)):
        return "R"
    if ty["s"] == STATUS and not any(CTORS.search(x) for x in q.names(t)):
        return "S"
    return None


class Follow:
    def __init__(self, P, key, b0, t0, tag):
        self.P, self.key, self.f = P, key, P.fns[key]
        self.cfg = P.cfg(key)
        self.b0, self.t0 = b0, t0
        self.callee = q.cname(t0)
        self.bad = None
        rt = P.types[self.f["locals"][0][0]]
        self.retk = "R" if rt.get("def") == "std::result::Result" else ("S" if rt["s"] == STATUS else ("O" if rt.get("def", "").endswith("Option") else ("B" if rt["k"] == "bool" else None)))
        self.start = ({t0["d"][0]: (tag,)} if len(t0["d"]) == 1 else None)

    def run(self):
        if self.start is None:      # stored straight into memory or returned
            return None
        if self.t0["t"] is None:
            return None
        init = (self.t0["t"], "U", tuple(sorted(self.start.items())), "carrier" if self.t0["d"] == [0] else "none")
        seen = set()
        todo = [init]
        while todo and self.bad is None and len(seen) < 20000:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            todo += self.step(st)
        return self.bad

    def arms(self, tag):
        """variant value -> 'ok'/'err' for a discriminant of the tagged value"""
        return {"R": {0: "ok", 1: "err"}, "CF": {0: "ok", 1: "err"}, "OS": {0: "err", 1: "ok"}, "OE": {0: "ok", 1: "err"}}.get(tag)

    def step(self, st):
        b, mode, car, ret = st
        car = dict(car)
        f, P = self.f, self.P
        blk = f["blocks"][b]
        if blk["c"]:
            return []
        for s in blk["s"]:
            if s[0] == "dead":
                car.pop(s[1], None)
                continue
            if s[0] != "=":
                continue
            dp, r = s[1], s[2]
            tag = None
            src = None
            if r[0] in ("use", "cast"):
                o = r[1] if r[0] == "use" else r[2]
                p = q.op_place(o)
                if p and p[0] in car:
                    src = p
            elif r[0] in ("ref", "rawptr"):
                if r[2][0] in car:
                    src = r[2]
            elif r[0] == "discr":
                if r[1][0] in car and self.arms(self.base(car[r[1][0]])) and not any(isinstance(e, list) and e[0] in ("f", "d") for e in r[1][1:]):
                    tag = ("d", self.base(car[r[1][0]]))
                elif r[1][0] in car and car[r[1][0]][0] == "kind":
                    tag = ("kind",)
            elif r[0] == "un" and r[1] == "Not":
                p = q.op_place(r[2])
                if p and len(p) == 1 and car.get(p[0], ("",))[0] == "b":
                    tag = ("b", not car[p[0]][1])
            elif r[0] == "agg":
                for o in r[2]:
                    p = q.op_place(o)
                    if p and p[0] in car:
                        src = p
                        break
                if src is not None and r[1][0] == "adt":
                    vt = P.types[r[1][1]]
                    if dp == [0] and vt.get("def") == "std::result::Result":
                        ret = "err" if r[1][2] == 1 else "ok"
                        continue
                    if car[src[0]][0] in ("R", "CF", "S", "OS", "E", "&") and vt.get("def") not in ("std::result::Result", "std::option::Option", "std::ops::ControlFlow"):
                        return []      # moved into a value: somebody else's business
                    if car[src[0]][0] == "E":
                        if vt.get("def") == "std::result::Result" and r[1][2] == 1:
                            tag = ("R",)
                    src = None if tag is None else src
                    if tag is None:
                        tag = None
                        if vt.get("def") == "std::result::Result" and r[1][2] == 1:
                            tag = ("R",)
            if src is not None and tag is None:
                t0 = car[src[0]]
                proj = [e for e in src[1:] if isinstance(e, list)]
                if any(e[0] in ("f", "d") for e in proj):
                    # payload: an error payload stays an error; an ok payload is no longer interesting
                    vd = [e[1] for e in proj if e[0] == "d"]
                    a = self.arms(self.base(t0))
                    if t0[0] == "E" or (a and vd and a.get(vd[0]) == "err"):
                        tag = ("E",) if self.base(t0) != "CF" else ("R",)
                else:
                    tag = t0
                    if tag[0] == "d":
                        tag = t0
            if dp == [0]:
                if tag is not None and tag[0] in ("R", "S", "CF", "OS"):
                    ret = "carrier"
                    continue
                ret = self.retval(r, mode)
                continue
            if len(dp) > 1:
                if tag is not None and tag[0] in ("R", "S", "E", "OS", "OE", "CF"):
                    if dp[0] == 0:
                        ret = "err" if tag[0] == "E" else "carrier"
                        continue
                    return []      # stored: the owner reports it
                if dp[0] == 0:
                    pass
                continue
            if tag is not None:
                car[dp[0]] = tag
            else:
                car.pop(dp[0], None)
        t = blk["t"]
        out = []

        def go(bb, m=mode, c=car, r=ret):
            if bb is not None:
                out.append((bb, m, tuple(sorted(c.items())), r))
        if isinstance(t, dict):
            nme = q.cname(t)
            if (b, ) == (self.b0,) or nme == self.callee:
                return []          # repeated
            hit = [(i, q.op_place(o)) for i, o in enumerate(t["a"]) if q.op_place(o) and q.op_place(o)[0] in car]
            d = t["d"]
            if not hit or (mode == "ERR" and self.makes_error(t)):
                c2 = dict(car)
                r2 = ret
                if mode == "ERR" and self.makes_error(t) and len(d) == 1:
                    for i, p in hit:
                        if "mv" in t["a"][i] and len(p) == 1:
                            c2.pop(p[0], None)
                    if d[0] == 0:
                        go(t["t"], c=c2, r="err")
                    else:
                        c2[d[0]] = ("S",)
                        go(t["t"], c=c2)
                    return out
                if len(d) == 1:
                    c2.pop(d[0], None)
                    if d[0] == 0:
                        r2 = "err" if "FromResidual" in nme else "unknown"
                go(t["t"], c=c2, r=r2)
                return out
            tag = car[hit[0][1][0]]
            base = self.base(tag)
            short = nme.split("::")[-1].split("<")[0]
            c2 = dict(car)
            for i, p in hit:
                if "mv" in t["a"][i] and len(p) == 1:
                    c2.pop(p[0], None)
            new = None
            if short in ("unwrap", "expect") and base in ("R", "OS"):
                return []          # panics on failure: never reaches a return as failure
            if tag[0] == "b" or base == "d":
                go(t["t"], c=c2, r=ret)
                return out
            if short in ("unwrap_err", "expect_err", "unwrap", "expect") and base in ("R", "OE"):
                new = ("E",)
                mode2 = "ERR"
                c2[d[0]] = new
                go(t["t"], m=mode2, c=c2)
                return out
            if short == "branch":
                new = ("CF",)
            elif "FromResidual" in nme or short == "from_residual":
                new = ("R",)
            elif short in ("map", "map_err", "and_then", "as_ref", "as_mut", "as_deref", "inspect", "inspect_err", "copied", "cloned", "clone", "deref", "borrow", "flatten", "and"):
                new = tag
            elif short == "ok" and base == "R":
                new = ("OS",)
            elif short == "err" and base == "R":
                new = ("OE",)
            elif short in ("is_ok", "is_some", "is_none", "is_err"):
                a = self.arms(base)
                if base == "S":
                    new = ("b", short == "is_ok")
                elif a:
                    okv = {"is_ok": 0, "is_err": 1, "is_some": 1, "is_none": 0}[short]
                    new = ("b", a[okv] == "ok")
            elif base == "S" and t["call"].get("local") and P.types[t["dt"]]["k"] == "bool":
                if short.startswith("is_"):
                    new = ("b", False)     # is_corruption, is_not_found, ...: true is a failure; false decides nothing
                    if d and len(d) == 1:
                        c2[d[0]] = ("b1",)
                    go(t["t"], c=c2)
                    return out
            elif short == "ok_or" or short == "ok_or_else":
                new = ("R",)
            elif short in ("into", "from") and base in ("E", "S"):
                new = ("E",)
            elif short == "kind" and base == "E":
                new = ("kind",)
            elif base == "kind" or tag[0] == "kind":
                if short in ("eq", "ne"):
                    if self.names_interrupt(b, t):
                        new = ("bk", short == "eq")
                    else:
                        new = None
            elif short in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "or", "or_else", "map_or", "map_or_else", "is_ok_and"):
                for l in [l for l, x in c2.items() if self.base(x) == base]:
                    c2.pop(l)
            elif base in ("E",) or short in ("to_string", "fmt"):
                new = None
                if base == "E" and t["call"].get("local"):
                    new = ("E",)
            elif P.types[t["dt"]].get("def") == "std::result::Result" or P.types[t["dt"]]["s"] == STATUS:
                new = ("R",) if P.types[t["dt"]].get("def") == "std::result::Result" else ("S",)
            elif "mv" in t["a"][hit[0][0]] and tag[0] != "&" and short != "drop":
                return []          # handed over
            if len(d) == 1:
                if d[0] == 0 and new is not None and new[0] in ("R", "S", "OS", "CF"):
                    go(t["t"], c=c2, r="carrier")
                    return out
                if d[0] == 0:
                    go(t["t"], c=c2, r="err" if "FromResidual" in nme else "unknown")
                    return out
                if new is not None:
                    c2[d[0]] = new
                else:
                    c2.pop(d[0], None)
            elif new is not None and new[0] in ("R", "S", "E"):
                return []
            go(t["t"], c=c2)
            return out
        if t[0] == "switch":
            p = q.op_place(t[1])
            tag = car.get(p[0]) if p and len(p) == 1 else None
            arms = [(v, bb) for v, bb in t[2]] + [(None, t[3])]
            if tag and tag[0] == "d":
                a = self.arms(tag[1])
                listed = {v for v, _ in t[2]}
                for v, bb in arms:
                    res = a.get(v) if v is not None else (lambda rest: rest[0] if len(rest) == 1 else None)([a[x] for x in a if x not in listed])
                    if v is None and not [x for x in a if x not in listed]:
                        continue
                    if res == "ok":
                        continue            # success: nothing to follow
                    go(bb, m="ERR" if res == "err" else mode)
                return out
            if tag and tag[0] == "b":
                for v, bb in arms:
                    truth = (v != 0) if v is not None else (0 in {x for x, _ in t[2]})
                    if truth == tag[1]:
                        continue
                    go(bb, m="ERR")
                return out
            if tag and tag[0] == "bk":
                for v, bb in arms:
                    truth = (v != 0) if v is not None else True
                    if truth == tag[1]:
                        continue            # classified as Interrupted / UnexpectedEof
                    go(bb)
                return out
            if tag and tag[0] == "kind":
                ks = self.kind_values()
                for v, bb in arms:
                    if v is not None and v in ks:
                        continue
                    go(bb)
                return out
            ea = self.error_arms(b)
            for v, bb in arms:
                if bb not in ea:        # another failure is known there: that one is followed by itself
                    go(bb)
            return out
        if t[0] == "ret":
            if ret == "carrier" or ret == "err":
                return []
            if ret == "unknown" and self.retk:
                return []
            if self.retk is None or ret in ("ok", "none") or (ret == "unknown" and self.retk is None):
                self.bad = (mode, ret)
            return []
        if t[0] == "drop":
            c2 = dict(car)
            go(t[2], c=c2)
            return out
        for s in self.cfg.succ[b]:
            go(s)
        return out

    def base(self, tag):
        return tag[0]

    def makes_error(self, t):
        """a call that builds an error Status out of something else than a Status"""
        P = self.P
        if P.types[t["dt"]]["s"] != STATUS or not t["call"].get("local"):
            return False
        short = q.cname(t).split("::")[-1]
        return short not in ("ok", "default", "clone", "status") and not short.startswith("is_")

    def error_arms(self, b):
        """successors of block b on which some other fallible value is known to have failed"""
        c = self.f.setdefault("_errarms", {})
        if b in c:
            return c[b]
        P, f = self.P, self.f
        out = set()
        t = f["blocks"][b]["t"]
        p = q.op_place(t[1])
        if p and len(p) == 1:
            if "_flow" not in f:
                f["_flow"] = q.Flow(P, self.key)
            pol, l = True, p[0]
            for _ in range(6):
                ds = f["_flow"].defs.get(l, [])
                if len(ds) != 1:
                    break
                d = ds[0]
                if d[1] == "t":
                    nme = q.cname(d[2])
                    short = nme.split("::")[-1]
                    at = P.types[d[2]["at"][0]] if d[2]["at"] else None
                    e = P.types[at["e"]] if at and at["k"] == "ref" else None
                    if short in ("is_ok", "is_err") and e and (e["s"] == STATUS or e.get("def") == "std::result::Result"):
                        okv = (short == "is_ok") == pol
                        for v, bb in [(v, bb) for v, bb in t[2]] + [(None, t[3])]:
                            truth = (v != 0) if v is not None else True
                            if truth != okv:
                                out.add(bb)
                    break
                r = d[2]
                if r[0] == "un" and r[1] == "Not":
                    pol = not pol
                    l = q.op_local(r[2])
                elif r[0] == "use" and q.op_local(r[1]) is not None:
                    l = q.op_local(r[1])
                elif r[0] == "discr" and len(r[1]) == 1:
                    ty = P.types[f["locals"][r[1][0]][0]]
                    if ty.get("def") == "std::result::Result" and ERRS.match(P.types[q.adt_arg(ty, 1)]["s"]):
                        out |= {bb for v, bb in t[2] if v == 1}
                    break
                else:
                    break
        c[b] = out
        return out

    def retval(self, r, mode):
        P = self.P
        if r[0] == "agg" and r[1][0] == "adt":
            d = P.types[r[1][1]].get("def", "")
            if d == "std::result::Result":
                return "err" if r[1][2] == 1 else "ok"
            if d.endswith("Option") and r[1][2] == 0 and self.retk == "O":
                return "err"
            return "ok"
        if r[0] == "use" and "k" in r[1] and self.retk == "B":
            return "err" if q.const_int(r[1]) == 0 else "ok"
        if r[0] == "use" and "k" in r[1]:
            return "ok"
        if self.retk == "R" or self.retk == "S":
            return "unknown"
        return "ok"

    def kind_values(self):
        a = self.P.adts.get("std::io::ErrorKind")
        return {v["discr"] for v in a["variants"] if v["name"] in INTERRUPTED} if a else set()

    def names_interrupt(self, b, t):
        """one argument of eq is a reference to a constant of one of the benign kinds"""
        P = self.P
        a = P.adts.get("std::io::ErrorKind")
        if not a:
            return False
        ks = self.kind_values()
        txt = []
        for o in t["a"]:
            if "k" in o:
                txt.append(o)
            else:
                fl = q.Flow(P, self.key)
                src, _ = fl.sources(q.op_local(o), through=lambda t: [])
                txt += [{"k": x} for kk, x in [y[:2] for y in src] if kk == "const"]
                for l in _:
                    for d in fl.defs.get(l, []):
                        if d[1] != "t" and d[2][0] == "agg" and d[2][1][0] == "adt" and P.types[d[2][1][1]].get("def") == "std::io::ErrorKind":
                            if a["variants"][d[2][1][2]]["discr"] in ks:
                                return True
        for o in txt:
            v = const_bytes(P, o["k"])
            if v is not None and v in ks:
                return True
        return False


def const_bytes(P, k):
    c = k.get("c")
    if not isinstance(c, dict):
        return None
    if "int" in c:
        return int(c["int"])
    if "ptr" in c or "mem" in c:
        try:
            m = c.get("ptr", c.get("mem"))
            if isinstance(m, dict) and "mem" in m:
                m = m["mem"]
            by = m.get("bytes") if isinstance(m, dict) else m
            return int(by[:2], 16)
        except Exception:
            return None
    return None


IOCNT = re.compile(r"io::(Write|Read)( for .*>|>)?::(write|read|write_vectored|read_vectored)$|impl std::io::(Write|Read) for .*>::(write|read|write_vectored|read_vectored)$|std::fs::.*::(write|read)_at$")


def run(c):
    P = c.P
    n = m = 0
    for k in P.local:
        f = P.fns[k]
        if not (f.get("identity") or f.get("closure")) or q.in_tests(f) or f["path"].startswith("_::"):
            continue
        c.functions.add(k)
        seq = {}
        for b, t in q.calls(f):
            tag = fallible(P, t)
            if tag is None or "io::Write for std::vec::Vec" in q.cname(t):
                continue
            nme = q.cname(t)
            i = seq[nme] = seq.get(nme, -1) + 1
            n += 1
            fo = Follow(P, k, b, t, tag)
            bad = fo.run()
            c.ob("swallow|%s|%s|%d" % (f["path"], nme, i), bad is None, P.where(k, t["ln"]), "a failing step makes the operation fail",
                 "%s of %s can be followed by a successful return of %s" % ("the failure" if bad and bad[0] == "ERR" else "the unexamined result", nme, f["path"]))
            if IOCNT.search(nme) and "for std::vec::Vec" not in nme:
                m += 1
                c.ob("count|%s|%s|%d" % (f["path"], nme, i), count_used(P, k, b, t), P.where(k, t["ln"]),
                     "the byte count of a partial read or write is used", "the number of bytes %s accepted is discarded" % nme)
    c.floor("fallible call sites", n, 60)
    c.extra["partial transfers"] = m


def count_used(P, key, b, t):
    """an integer derived from the result takes part in arithmetic, a comparison, a call or a store"""
    fl = q.Flow(P, key)
    f = P.fns[key]
    der = fl.derived(t["d"][0], through=lambda t: [0] if re.search(r"::(branch|map_err|unwrap|expect|unwrap_or|ok|map|from_residual|unwrap_or_default|unwrap_or_else)$", q.cname(t)) or "Try>::branch" in q.cname(t) else [])
    for l in der:
        if l == 0:
            if P.types[f["locals"][0][0]].get("def") == "std::result::Result" and "usize" in P.types[f["locals"][0][0]]["s"]:
                return True
        ty = P.types[f["locals"][l][0]]
        if ty["s"] not in ("usize", "u64"):
            continue
        for (bb, j, kind, s) in fl.uses.get(l, []):
            if kind == "rv" and s[2][0] == "bin":
                return True
            if kind in ("arg", "store", "switch", "idx"):
                return True
            if kind == "rv" and len(s[1]) > 1:
                return True
    return False
