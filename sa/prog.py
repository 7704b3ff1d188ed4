"""Program representation: types, functions, control-flow graphs, dominators, loops, call graph."""
import json, re
from . import load


class Prog:
    def __init__(self, path=None):
        self.path = path or load.dump_path()
        with open(self.path) as f:
            d = json.load(f)
        self.d = d
        self.types = d["types"]
        self.fns = d["fns"]
        self.adts = d["adts"]
        for v in self.adts.get("std::cmp::Ordering", {}).get("variants", ()):
            if v["discr"] == 255:      # dumped as the bits of an i8
                v["discr"] = -1
        self.sigs = d["sigs"]
        self.impls = d["impls"]
        self.autos = d["autos"]
        self.statics = d["statics"]
        self._cfg = {}
        self.by_str = {}
        for i, t in enumerate(self.types):
            self.by_str.setdefault(t["s"], i)
        for t in self.types:     # pattern_type!(X is ..) behaves like X
            m = re.match(r"pattern_type!\((\*(?:const|mut) )?(.*) is .*\)$", t["s"])
            if m and t["k"] == "other":
                e = self.by_str.get(m.group(2))
                if m.group(1) and e is not None:
                    t.update(k="ptr", e=e, m=m.group(1).startswith("*mut"))
                elif e is not None:
                    sz = {x: t[x] for x in ("s",)}
                    t.update(self.types[e])
                    t.update(sz)
        self.local = [k for k, f in self.fns.items() if f["local"]]

    def ty(self, i):
        return self.types[i]

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = CFG(self.fns[key])
        return c

    def find(self, suffix, local=True):
        """Function keys whose path ends with `suffix`."""
        return [k for k, f in self.fns.items() if (f["local"] or not local) and f["path"].endswith(suffix) and f.get("identity")]

    def one(self, suffix):
        """the single local function whose path ends with suffix (at a path boundary), or None"""
        ks = self.find(suffix)
        if len(ks) > 1:
            ks = [k for k in ks if self.fns[k]["path"] == suffix or self.fns[k]["path"].endswith("::" + suffix)] or ks
        return ks[0] if len(ks) == 1 else None

    def where(self, key, line=None):
        f = self.fns[key]
        return "%s:%s" % (f["span"][0], line or f["span"][1])


def succs(t, unwind=False):
    if isinstance(t, dict):
        out = [t["t"]] if t["t"] is not None else []
        if unwind and t["uw"] is not None:
            out.append(t["uw"])
        return out
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] not in out:
            out.append(t[3])
        return out
    if k == "drop":
        return [t[2]] + ([t[3]] if unwind and t[3] is not None else [])
    if k == "assert":
        return [t[4]] + ([t[5]] if unwind and t[5] is not None else [])
    if k == "asm":
        return list(t[1])
    return []


class CFG:
    def __init__(self, fn, unwind=False):
        self.fn = fn
        self.blocks = fn["blocks"]
        n = len(self.blocks)
        self.succ = [succs(b["t"], unwind) for b in self.blocks]
        self.pred = [[] for _ in range(n)]
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    a, c = d, p
                    while a != c:
                        while self.rpon[a] > self.rpon[c]:
                            a = idom[a]
                        while self.rpon[c] > self.rpon[a]:
                            c = idom[c]
                    d = a
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += self.pred[x]

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def liveness(self):
        """live-in sets of locals per block (locals whose address is taken count as live until StorageDead)."""
        if hasattr(self, "_live"):
            return self._live
        fn = self.fn
        nl = len(fn["locals"])
        addr = set()
        use = []
        deff = []

        def pl_uses(p, out, read=True):
            if read or len(p) > 1:
                out.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    out.add(e[1])

        def op_uses(o, out):
            if "cp" in o:
                pl_uses(o["cp"], out)
            elif "mv" in o:
                pl_uses(o["mv"], out)

        def rv_uses(r, out):
            k = r[0]
            if k in ("use", "repeat"):
                op_uses(r[1], out)
            elif k in ("ref", "rawptr"):
                pl_uses(r[2], out)
                if "*" not in r[2]:
                    addr.add(r[2][0])
            elif k == "cast":
                op_uses(r[2], out)
            elif k == "bin":
                op_uses(r[2], out); op_uses(r[3], out)
            elif k == "un":
                op_uses(r[2], out)
            elif k == "discr":
                pl_uses(r[1], out)
            elif k == "agg":
                for o in r[2]:
                    op_uses(o, out)
        for b in self.blocks:
            steps = []
            for s in b["s"]:
                u, d = set(), None
                if s[0] == "=":
                    rv_uses(s[2], u)
                    pl_uses(s[1], u, read=False)
                    if len(s[1]) == 1:
                        d = s[1][0]
                elif s[0] in ("live", "dead"):
                    d = s[1]
                elif s[0] == "assume":
                    op_uses(s[1], u)
                elif s[0] == "cno":
                    for o in s[1:4]:
                        op_uses(o, u)
                elif s[0] == "setd":
                    pl_uses(s[1], u)
                steps.append((u, d))
            t = b["t"]
            u, d = set(), None
            if isinstance(t, dict):
                for o in t["a"]:
                    op_uses(o, u)
                if "ptr" in t["call"]:
                    op_uses(t["call"]["ptr"], u)
                pl_uses(t["d"], u, read=False)
                if len(t["d"]) == 1:
                    d = t["d"][0]
            elif t[0] == "switch":
                op_uses(t[1], u)
            elif t[0] == "drop":
                pl_uses(t[1], u)
            elif t[0] == "assert":
                op_uses(t[1], u)
                if isinstance(t[6], list):
                    for o in t[6]:
                        op_uses(o, u)
            elif t[0] == "ret":
                u.add(0)
            steps.append((u, d))
            use.append(steps)
        live = [set() for _ in self.blocks]
        ch = True
        order = self.rpo[::-1]
        while ch:
            ch = False
            for b in order:
                l = set()
                for s in self.succ[b]:
                    l |= live[s]
                for u, d in reversed(use[b]):
                    if d is not None:
                        l.discard(d)
                    l |= u
                if l != live[b]:
                    live[b] = l
                    ch = True
        self._live = (live, addr)
        return self._live
