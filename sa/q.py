"""Queries over the dumped program: calls, closures, call graph, def-use, provenance."""
import re
from .prog import CFG, succs


def is_call(t):
    return isinstance(t, dict)


def calls(f, cleanup=False):
    """(block, call terminator) pairs of a function."""
    for i, b in enumerate(f["blocks"]):
        if b["c"] and not cleanup:
            continue
        if isinstance(b["t"], dict):
            yield i, b["t"]


def cname(t):
    """Resolved (else declared) path of a call terminator."""
    c = t["call"]
    return c.get("rpath") or c.get("path") or ""


def names(t):
    c = t["call"]
    return [x for x in (c.get("rpath"), c.get("path")) if x]


def stmts(f, cleanup=False):
    for i, b in enumerate(f["blocks"]):
        if b["c"] and not cleanup:
            continue
        for j, s in enumerate(b["s"]):
            yield i, j, s


def op_place(o):
    return o.get("cp") or o.get("mv")


def op_local(o):
    p = op_place(o)
    return p[0] if p else None


def op_fn(o):
    return o["k"].get("fn") if "k" in o else None


def rv_ops(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[2])
    return []


def rv_places(r):
    """places read by an rvalue"""
    k = r[0]
    if k in ("ref", "rawptr"):
        return [r[2]]
    if k == "discr":
        return [r[1]]
    return [op_place(o) for o in rv_ops(r) if op_place(o)]


def const_int(o):
    if "k" in o:
        c = o["k"].get("c")
        if isinstance(c, dict) and "int" in c:
            return int(c["int"])
    return None


def closures_of(P, key):
    """closure bodies constructed by a function"""
    out = []
    for _, _, s in stmts(P.fns[key], True):
        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
            if s[2][1][1] in P.fns:
                out.append(s[2][1][1])
    return out


def family(P, key):
    """a function and the closures nested in it"""
    out, todo = [], [key]
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.append(k)
        todo += closures_of(P, k)
    return out


class Calls:
    """call graph: callees of a call terminator as local identity functions (trait calls: every local impl)"""

    def __init__(self, P):
        self.P = P
        self.ident = {}
        for k, f in P.fns.items():
            if f.get("identity") and f["local"]:
                self.ident.setdefault(f["path"], k)
        self.impl_methods = {}
        for i in P.impls:
            for m, path in i["methods"]:
                self.impl_methods.setdefault((i["trait"], m), []).append(path)
        self._e = {}

    def targets(self, t):
        """keys of functions a call terminator may run (bodies present in the dump)"""
        P = self.P
        c = t["call"]
        out = []
        k = c.get("key")
        if k in P.fns:
            out.append(k)
        elif c.get("unresolved") or c.get("virtual"):
            tr, m = c.get("trait"), c.get("method")
            for p in self.impl_methods.get((tr, m), []):
                if p in self.ident:
                    out.append(self.ident[p])
            if c.get("path") in self.ident:      # provided method
                out.append(self.ident[c["path"]])
        return out

    def fn_args(self, key, t):
        """closures / fn items handed to a call"""
        P = self.P
        out = []
        f = P.fns[key]
        for o, ti in zip(t["a"], t["at"]):
            ty = P.types[ti]
            while ty["k"] in ("ref", "ptr"):
                ty = P.types[ty["e"]]
            if ty["k"] == "closure":
                d = ty["def"]
                out += [k for k in P.fns if P.fns[k].get("closure") and P.fns[k]["path"] == d]
            fn = op_fn(o)
            if fn and fn.get("key") in P.fns:
                out.append(fn["key"])
        return out

    def edges(self, key):
        e = self._e.get(key)
        if e is None:
            e = []
            f = self.P.fns[key]
            for b, t in calls(f, True):
                for x in self.targets(t) + self.fn_args(key, t):
                    if x not in e:
                        e.append(x)
            # drop glue of local types is a call too
            for b in f["blocks"]:
                t = b["t"]
                if isinstance(t, list) and t[0] == "drop" and t[5]:
                    for x in self.drops(t[4]):
                        if x not in e:
                            e.append(x)
            for x in closures_of(self.P, key):
                if x not in e:
                    e.append(x)
            self._e[key] = e
        return e

    def drops(self, ti, seen=None):
        """Drop::drop functions run by dropping a value of type ti"""
        P = self.P
        seen = set() if seen is None else seen
        if ti in seen:
            return []
        seen.add(ti)
        t = P.types[ti]
        out = []
        if t["k"] == "adt":
            for i in P.impls:
                if i["trait"] == "std::ops::Drop" and P.types[i["self"]].get("def") == t["def"]:
                    for m, p in i["methods"]:
                        if p in self.ident:
                            out.append(self.ident[p])
            for vs in t.get("vf") or []:
                for x in vs:
                    out += self.drops(x, seen)
            for a in t.get("args") or []:
                if "t" in a and t["def"].startswith("std::") and "PhantomData" not in t["def"] and "NonNull" not in t["def"]:
                    out += self.drops(a["t"], seen)
        elif t["k"] == "tuple":
            for x in t["ts"]:
                out += self.drops(x, seen)
        elif t["k"] in ("array", "slice"):
            out += self.drops(t["e"], seen)
        return out

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += self.edges(k)
        return seen


class Flow:
    """Flow-insensitive provenance inside one function: which locals a local's value may come from."""

    def __init__(self, P, key):
        self.P, self.key, self.f = P, key, P.fns[key]
        self.defs = {}      # local -> [(block, stmt index or 't', rvalue or call terminator, destination place)]
        self.uses = {}      # local -> [(block, idx, kind, payload)]
        for i, b in enumerate(self.f["blocks"]):
            if b["c"]:
                continue
            for j, s in enumerate(b["s"]):
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((i, j, s[2], s[1]))
                    for p in rv_places(s[2]):
                        self.uses.setdefault(p[0], []).append((i, j, "rv", s))
                    for p in [s[1]] + rv_places(s[2]):
                        for e in p[1:]:
                            if isinstance(e, list) and e[0] == "i":
                                self.uses.setdefault(e[1], []).append((i, j, "idx", s))
                    if "*" in s[1][1:]:
                        self.uses.setdefault(s[1][0], []).append((i, j, "store", s))
            t = b["t"]
            if isinstance(t, dict):
                self.defs.setdefault(t["d"][0], []).append((i, "t", t, t["d"]))
                for n, o in enumerate(t["a"]):
                    p = op_place(o)
                    if p:
                        self.uses.setdefault(p[0], []).append((i, "t", "arg", (t, n)))
                if "ptr" in t["call"]:
                    p = op_place(t["call"]["ptr"])
                    if p:
                        self.uses.setdefault(p[0], []).append((i, "t", "callee", (t, -1)))
            elif t[0] == "switch":
                p = op_place(t[1])
                if p:
                    self.uses.setdefault(p[0], []).append((i, "t", "switch", t))
            elif t[0] == "assert":
                p = op_place(t[1])
                if p:
                    self.uses.setdefault(p[0], []).append((i, "t", "assert", t))
            elif t[0] == "drop":
                self.uses.setdefault(t[1][0], []).append((i, "t", "drop", t))
            elif t[0] == "ret":
                self.uses.setdefault(0, []).append((i, "t", "ret", t))

    def sources(self, l, through=None, limit=4000):
        """All (kind, payload) the value of local l may derive from: ('arg', n), ('call', block, term), ('const', k),
        ('field', place).  `through(call)` -> list of argument indices the result derives from (default: all)."""
        out, seen, todo = [], set(), [l]
        while todo and limit:
            limit -= 1
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if 1 <= x <= self.f["argc"]:
                out.append(("arg", x))
            for (b, j, r, dp) in self.defs.get(x, []):
                if j == "t":
                    out.append(("call", b, r))
                    idx = through(r) if through else None
                    for n, o in enumerate(r["a"]):
                        if idx is None or n in idx:
                            p = op_place(o)
                            if p:
                                todo.append(p[0])
                            elif "k" in o:
                                out.append(("const", o["k"]))
                else:
                    for p in rv_places(r):
                        if len(p) > 1:
                            out.append(("place", p))
                        todo.append(p[0])
                    for o in rv_ops(r):
                        if "k" in o:
                            out.append(("const", o["k"]))
        return out, seen

    def derived(self, l, through=None):
        """Locals whose value may derive from local l (forward closure)."""
        seen, todo = set(), [l]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for (b, j, kind, s) in self.uses.get(x, []):
                if kind == "rv":
                    todo.append(s[1][0])
                elif kind == "arg":
                    t, n = s
                    idx = through(t) if through else None
                    if idx is None or n in idx:
                        todo.append(t["d"][0])
        return seen


def contains(P, ti, pred, seen=None):
    """Does the type (through fields of local and std types, generic args, pointers) contain one with pred(type)?"""
    seen = set() if seen is None else seen
    if ti in seen:
        return False
    seen.add(ti)
    t = P.types[ti]
    if pred(t):
        return True
    subs = []
    if t["k"] == "adt":
        subs = [a["t"] for a in t.get("args") or [] if "t" in a]
        for vs in t.get("vf") or []:
            subs += vs
    elif t["k"] in ("ref", "ptr", "array", "slice"):
        subs = [t["e"]]
    elif t["k"] == "tuple":
        subs = t["ts"]
    return any(contains(P, x, pred, seen) for x in subs)


def args_contain(P, ti, pred, seen=None):
    """as contains, but only through generic arguments, references and tuples (not private fields)"""
    seen = set() if seen is None else seen
    if ti in seen:
        return False
    seen.add(ti)
    t = P.types[ti]
    if pred(t):
        return True
    subs = []
    if t["k"] == "adt":
        subs = [a["t"] for a in t.get("args") or [] if "t" in a]
    elif t["k"] in ("ref", "ptr", "array", "slice"):
        subs = [t["e"]]
    elif t["k"] == "tuple":
        subs = t["ts"]
    return any(args_contain(P, x, pred, seen) for x in subs)


def adt_arg(t, n=0):
    a = [x["t"] for x in t.get("args") or [] if "t" in x]
    return a[n] if n < len(a) else None


def reachable_blocks(cfg, starts, avoid=()):
    seen, todo = set(), list(starts)
    while todo:
        b = todo.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        todo += cfg.succ[b]
    return seen


def in_tests(f):
    return f["span"][0].endswith("_test.rs") or "/test" in f["span"][0]


def result_edges(P, key, b, t, fl=None):
    """Edges (block, successor) on which the Result/Option returned by call t in block b is known to be Ok/Some,
    and those on which it is known to be Err/None."""
    f = P.fns[key]
    fl = fl or Flow(P, key)
    ok, er = set(), set()
    # carriers: local -> kind
    car = {t["d"][0]: "R" if P.types[t["dt"]].get("def", "").endswith("Result") else "O"}
    todo = [t["d"][0]]
    bools = {}
    while todo:
        l = todo.pop()
        kd = car[l]
        for (bb, j, kind, s) in fl.uses.get(l, []):
            if kind == "rv":
                r = s[2]
                if r[0] in ("use", "ref", "cast") and len(s[1]) == 1:
                    p = r[2] if r[0] == "ref" else q_place(r)
                    if p and not any(isinstance(e, list) and e[0] in ("f", "d") for e in p[1:]):
                        if s[1][0] not in car:
                            car[s[1][0]] = kd
                            todo.append(s[1][0])
                elif r[0] == "discr" and not any(isinstance(e, list) for e in r[1][1:]):
                    okv, ev = {"R": (0, 1), "O": (1, 0), "CF": (0, 1)}[kd]
                    for (b2, _, k2, tt) in fl.uses.get(s[1][0], []):
                        if k2 == "switch":
                            listed = {v for v, _ in tt[2]}
                            for v, x in tt[2]:
                                (ok if v == okv else er).add((b2, x))
                            if okv in listed and ev not in listed:
                                er.add((b2, tt[3]))
                            elif ev in listed and okv not in listed:
                                ok.add((b2, tt[3]))
            elif kind == "arg":
                ct, n = s
                short = cname(ct).split("::")[-1]
                if n == 0 and short in ("unwrap", "expect"):
                    ok.add((bb, ct["t"]))
                elif n == 0 and short in ("unwrap_err", "expect_err"):
                    er.add((bb, ct["t"]))
                elif short == "branch" and n == 0:
                    car[ct["d"][0]] = "CF"
                    todo.append(ct["d"][0])
                elif short in ("map_err", "map", "as_ref", "as_mut", "ok_or", "ok_or_else", "copied", "cloned") and n == 0:
                    car[ct["d"][0]] = "R" if P.types[ct["dt"]].get("def", "").endswith("Result") else "O"
                    todo.append(ct["d"][0])
                elif short == "ok" and n == 0:
                    car[ct["d"][0]] = "O"
                    todo.append(ct["d"][0])
                elif short in ("is_ok", "is_some"):
                    bools[ct["d"][0]] = True
                elif short in ("is_err", "is_none"):
                    bools[ct["d"][0]] = False
    for l0, pol0 in bools.items():
        st = [(l0, pol0)]
        seen = set()
        while st:
            l, pol = st.pop()
            if (l, pol) in seen:
                continue
            seen.add((l, pol))
            for (bb, j, kind, s) in fl.uses.get(l, []):
                if kind == "switch":
                    for v, x in s[2]:
                        (ok if (v != 0) == pol else er).add((bb, x))
                    (ok if pol else er).add((bb, s[3]))
                elif kind == "rv" and len(s[1]) == 1:
                    if s[2][0] == "un" and s[2][1] == "Not":
                        st.append((s[1][0], not pol))
                    elif s[2][0] == "use":
                        st.append((s[1][0], pol))
    return ok, er


def q_place(r):
    return op_place(r[1] if r[0] == "use" else r[2])


def reach_without(cfg, start, target, edges):
    """Is block `target` reachable from `start` when the given edges are removed?"""
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b == target:
            return True
        if b in seen:
            continue
        seen.add(b)
        todo += [s for s in cfg.succ[b] if (b, s) not in edges]
    return False


def reachable_blocks_in(cfg, start, body, stop):
    """blocks of `body` reachable from start without passing `stop`"""
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b not in body or b == stop:
            continue
        seen.add(b)
        todo += cfg.succ[b]
    return seen
