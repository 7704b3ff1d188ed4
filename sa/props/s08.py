"""Loop progress.  For every natural loop the values its exits depend on are sliced (locals and memory behind references); a
progress event is a change of one of them to a loop-dependent value: a counter step, an iterator's next, a link walk, a call
that receives the value by &mut.  Assignments of loop-invariant values are no progress (their effect on the next test is
followed).  No cycle through the loop may avoid every progress event, a loop without any exit is reported, counters must move
towards their bound, and no recursion may lack a base case."""
import re
from .. import ai, q
from ..q import op_place


def base_path(p):
    """place as (local, tuple of projections up to an index)"""
    out = []
    for e in p[1:]:
        if e == "*":
            out.append("*")
        elif e[0] == "f":
            out.append(e[1])
        elif e[0] == "d":
            out.append("d%d" % e[1])
        else:
            break
    return (p[0], tuple(out))


def overlaps(a, b):
    if a[0] != b[0]:
        return False
    x, y = a[1], b[1]
    n = min(len(x), len(y))
    return x[:n] == y[:n]


class Loop:
    def __init__(self, P, key, head, body):
        self.P, self.key, self.f = P, key, P.fns[key]
        self.cfg = P.cfg(key)
        self.head, self.body = head, body
        self.fl = self.f.get("_fl8") or q.Flow(P, key)
        self.f["_fl8"] = self.fl
        self.exits = [(b, s) for b in body for s in self.cfg.succ[b] if s not in body]
        self.real_exits = [(b, s) for b, s in self.exits]
        self.slice()
        self.events()

    def alias(self, p):
        """resolve a place through reference locals to the place they refer to (single definition)"""
        for _ in range(12):
            l = p[0]
            if len(p) > 1 and p[1] == "*":
                ds = [d for d in self.fl.defs.get(l, []) if len(d[3]) == 1]
                if len(ds) == 1 and ds[0][1] != "t":
                    r = ds[0][2]
                    if r[0] in ("ref", "rawptr"):
                        p = list(r[2]) + list(p[2:])
                        continue
                    if r[0] == "use" and op_place(r[1]):
                        p = list(op_place(r[1])) + list(p[1:])
                        continue
                    if r[0] == "cast" and op_place(r[2]):
                        p = list(op_place(r[2])) + list(p[1:])
                        continue
            elif len(p) == 1 or p[1] != "*":
                return p
            break
        return p

    def slice(self):
        """places the exit tests depend on"""
        f = self.f
        self.ctl = set()       # base paths
        todo = []
        for b, _ in self.exits:
            t = f["blocks"][b]["t"]
            if isinstance(t, list) and t[0] == "switch":
                p = op_place(t[1])
                if p:
                    todo.append(p)
            elif isinstance(t, list) and t[0] == "assert":
                pass
            elif isinstance(t, dict):
                pass
        # exits taken from a block that is reached by a test inside the loop: the test controls the exit
        for b in self.body:
            t = f["blocks"][b]["t"]
            if isinstance(t, list) and t[0] == "switch":
                rs = [any(x in q.reachable_blocks_in(self.cfg, s, self.body, self.head) for x, _ in self.exits) for s in self.cfg.succ[b] if s in self.body]
                if len(self.cfg.succ[b]) > 1 and rs and not all(rs):
                    p = op_place(t[1])
                    if p:
                        todo.append(p)
        seen = set()
        while todo:
            p = self.alias(list(todo.pop()))
            bp = base_path(p)
            if bp in seen:
                continue
            seen.add(bp)
            self.ctl.add(bp)
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i":
                    todo.append([e[1]])
            if "*" in bp[1]:
                todo.append([p[0]])
            for (b, j, r, dp) in self.fl.defs.get(p[0], []):
                if b not in self.body:
                    continue
                if j == "t":
                    for o in r["a"]:
                        x = op_place(o)
                        if x:
                            todo.append(x)
                            ty = self.P.types[f["locals"][x[0]][0]]
                            if ty["k"] in ("ref", "ptr") and len(x) == 1:
                                todo.append([x[0], "*"])
                else:
                    todo += [x for x in q.rv_places(r)]

    def invariant(self, l, seen=None):
        """the local's value is the same in every iteration: no definition in the body that depends on the loop"""
        seen = set() if seen is None else seen
        if l in seen:
            return True
        seen.add(l)
        for (b, j, r, dp) in self.fl.defs.get(l, []):
            if b not in self.body:
                continue
            if len(dp) > 1:
                continue
            if j == "t":
                return self.pure_inv(r, seen)
            for p in q.rv_places(r):
                if r[0] == "ref" and r[1] == "mut" and "*" not in p:
                    continue
                if not self.invariant(p[0], seen):
                    return False
                if len(p) > 1 and self.written(p):
                    return False
        # several definitions in the body of different values: varies
        ds = [d for d in self.fl.defs.get(l, []) if d[0] in self.body and len(d[3]) == 1]
        outside = [d for d in self.fl.defs.get(l, []) if d[0] not in self.body and len(d[3]) == 1] or (1 <= l <= self.f["argc"])
        return True

    def pure_inv(self, t, seen):
        nme = q.cname(t)
        if re.search(r"::(deref|deref_mut|as_ref|as_mut|borrow|len|size|is_empty|clone|as_ptr|as_mut_ptr|unwrap|expect|into_iter|iter|new|from)$", nme):
            return all(self.invariant(q.op_local(o), seen) for o in t["a"] if q.op_local(o) is not None)
        return False

    def written(self, p):
        bp = base_path(self.alias(list(p)))
        return any(overlaps(bp, w) for w in self.writes)

    def events(self):
        """progress events per block"""
        f, P = self.f, self.P
        self.writes = set()
        for b in self.body:
            for s in f["blocks"][b]["s"]:
                if s[0] == "=":
                    self.writes.add(base_path(self.alias(list(s[1]))))
            t = f["blocks"][b]["t"]
            if isinstance(t, dict):
                self.writes.add(base_path(self.alias(list(t["d"]))))
                for o, ti in zip(t["a"], t["at"]):
                    p = op_place(o)
                    ty = P.types[ti]
                    if p and ty["k"] in ("ref", "ptr") and ty.get("m"):
                        self.writes.add(base_path(self.alias(list(p) + ["*"])))
        self.ev = {}
        self.consts = {}
        for b in self.body:
            for s in f["blocks"][b]["s"]:
                if s[0] != "=":
                    continue
                bp = base_path(self.alias(list(s[1])))
                if not any(overlaps(bp, c) for c in self.ctl):
                    continue
                if self.steps(s[1], s[2]):
                    self.ev.setdefault(b, []).append(("assign", bp, s))
            t = f["blocks"][b]["t"]
            if isinstance(t, dict):
                bp = base_path(self.alias(list(t["d"])))
                hit = False
                for o, ti in zip(t["a"], t["at"]):
                    p = op_place(o)
                    ty = P.types[ti]
                    if p and ty["k"] in ("ref", "ptr") and ty.get("m"):
                        ap = base_path(self.alias(list(p) + ["*"]))
                        if any(overlaps(ap, c) for c in self.ctl) and not re.search(r"::(deref_mut|as_mut|as_mut_ptr|iter_mut|index_mut|borrow_mut|get_mut|as_mut_slice|get_unchecked_mut|add|offset|sub|is_null|cast)$", q.cname(t)):
                            hit = True
                if hit:
                    self.ev.setdefault(b, []).append(("call", bp, t))
                elif any(overlaps(bp, c) for c in self.ctl) and self.user_carried(t["d"]) and not self.pure_inv(t, set()):
                    if self.depends_on_ctl(t):
                        self.ev.setdefault(b, []).append(("call", bp, t))

    def user_carried(self, p):
        """the value assigned here is read in a later iteration (loop-carried)"""
        if len(p) > 1:
            return True
        return p[0] in self.P.cfg(self.key).liveness()[0][self.head]

    def depends_on_ctl(self, t):
        return True

    def steps(self, p, r):
        """the assignment changes a loop-carried value to one that differs between iterations"""
        if len(p) == 1 and not self.user_carried(p):
            return False
        k = r[0]
        if k == "use" and "k" in r[1]:
            return False
        places = q.rv_places(r)
        if not places:
            return False
        if k == "agg" and not r[2]:
            return False
        if k == "discr":
            return False
        vals = [x for x in places]
        # value that does not depend on anything the loop changes
        if all(self.invariant(x[0]) and not (len(x) > 1 and self.written(x)) for x in vals):
            return not self.flagish(p) and any(self.self_dep(p, x[0]) for x in vals)
        # a move of an unchanged copy (x = x)
        if k == "use" and base_path(self.alias(list(vals[0]))) == base_path(self.alias(list(p))):
            return False
        # must depend on the loop's own progress: otherwise re-assigned from a fresh source
        return True

    def flagish(self, p):
        return self.P.types[self.f["locals"][p[0]][0]]["k"] == "bool" and len(p) == 1

    def self_dep(self, p, l):
        src, locs = self.fl.sources(l)
        return p[0] in locs

    def cycle(self):
        """a cycle through the head that avoids every progress event; constants of locals are followed"""
        f, cfg = self.f, self.cfg
        start = (self.head, ())
        graph = {}
        todo = [start]
        while todo and len(graph) < 4000:
            st = todo.pop()
            if st in graph:
                continue
            b, env = st
            graph[st] = []
            if b in self.ev:
                continue
            e = dict(env)
            blk = f["blocks"][b]
            for s in blk["s"]:
                if s[0] == "=" and len(s[1]) == 1:
                    l = s[1][0]
                    c = None
                    r = s[2]
                    if r[0] == "use":
                        c = q.const_int(r[1])
                        pl = op_place(r[1])
                        if c is None and pl and len(pl) == 1:
                            c = e.get(pl[0])
                    elif r[0] == "un" and r[1] == "Not" and self.P.types[f["locals"][l][0]]["k"] == "bool":
                        pl = op_place(r[2])
                        if pl and len(pl) == 1 and pl[0] in e:
                            c = 1 - e[pl[0]]
                    elif r[0] == "agg" and r[1][0] == "adt" and len(r[2]) == 0:
                        c = ("v", r[1][2])
                    elif r[0] == "discr" and len(r[1]) == 1 and isinstance(e.get(r[1][0]), tuple):
                        c = e[r[1][0]][1]
                    if c is not None:
                        e[l] = c
                    else:
                        e.pop(l, None)
                elif s[0] == "dead":
                    e.pop(s[1], None)
            t = blk["t"]
            nx = [x for x in cfg.succ[b]]
            if isinstance(t, dict):
                e.pop(t["d"][0], None)
            elif t[0] == "switch":
                p = op_place(t[1])
                if p and len(p) == 1 and isinstance(e.get(p[0]), int):
                    v = e[p[0]]
                    nx = [bb for vv, bb in t[2] if vv == v] or [t[3]]
            for x in nx:
                if x in self.body:
                    ns = (x, tuple(sorted(e.items(), key=lambda z: z[0])))
                    graph[st].append(ns)
                    todo.append(ns)
        # any cycle in graph (reached from start) that passes the head
        color = {}
        stack = [(start, iter(graph[start]))]
        color[start] = 1
        path = [start]
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    return path[path.index(m):] if m in path else [m]
                if m not in color:
                    color[m] = 1
                    path.append(m)
                    stack.append((m, iter(graph.get(m, []))))
                    break
            else:
                color[n] = 2
                path.pop()
                stack.pop()
        return None

    def inner(self):
        """loops nested in this one are cycles of their own"""
        return [h for h in self.cfg.loops if h != self.head and h in self.body]


def run(c):
    P = c.P
    n = 0
    for k in P.local:
        f = P.fns[k]
        if not (f.get("identity") or f.get("closure")) or q.in_tests(f) or f["path"].startswith("_::"):
            continue
        cfg = P.cfg(k)
        c.functions.add(k)
        hs = sorted(cfg.loops, key=lambda h: cfg.rpon[h])
        for i, h in enumerate(hs):
            n += 1
            L = Loop(P, k, h, cfg.loops[h])
            ln = line_of(f, h)
            key = "loop|%s|%d" % (f["path"], i)
            if not L.exits:
                c.ob(key, False, P.where(k, ln), "every loop makes progress towards an exit", "the loop has no exit")
                continue
            cy = L.cycle()
            if cy is not None and infeasible(P, k, cy):
                cy = None
            c.ob(key, cy is None, P.where(k, ln), "every loop makes progress towards an exit",
                 "an iteration through lines %s changes nothing the exits depend on" % sorted({line_of(f, x[0]) for x in cy or []}))
            direction(c, P, k, f, L, key, ln)
    c.floor("loops", n, 30)
    recursion(c)


def infeasible(P, k, cy):
    """the abstract interpreter proves that a block of the cycle is never entered"""
    E = ai.Engine(P, opts=dict(maxsteps=20000))
    try:
        E.analyze(k)
    except Exception:
        return False
    got = {b for x, b in E.reached if x == k}
    return bool(got) and any(x[0] not in got for x in cy)


def line_of(f, b):
    blk = f["blocks"][b]
    for s in blk["s"]:
        if s[0] == "=":
            return s[3]
    t = blk["t"]
    if isinstance(t, dict):
        return t["ln"]
    return t[-1] if isinstance(t[-1], int) and t[0] in ("switch", "drop", "assert") else f["span"][1]


def direction(c, P, key, f, L, okey, ln):
    """a counter compared with an invariant bound must move towards it"""
    for b, s in L.exits:
        t = f["blocks"][b]["t"]
        if not (isinstance(t, list) and t[0] == "switch"):
            continue
        p = op_place(t[1])
        if not p or len(p) != 1:
            continue
        ds = [d for d in L.fl.defs.get(p[0], []) if d[0] in L.body]
        if len(ds) != 1 or ds[0][1] == "t" or ds[0][2][0] != "bin" or ds[0][2][1] not in ("Lt", "Le", "Gt", "Ge"):
            continue
        r = ds[0][2]
        truth = None
        for v, bb in t[2]:
            if bb == s:
                truth = v != 0
        if truth is None:
            truth = not any(v != 0 for v, _ in t[2])  # otherwise arm
            truth = all(v == 0 for v, _ in t[2])
        for side in (2, 3):
            x = op_place(r[side])
            o = r[5 - side]
            if not x:
                continue
            x = unmove(L, x)
            y = op_place(o)
            if y is not None:
                y = unmove(L, y)
                if not L.invariant(y[0]) or (len(y) > 1 and L.written(y)):
                    continue
            bp = base_path(L.alias(list(x)))
            moves = []
            ok = True
            for bb in L.body:
                for st in f["blocks"][bb]["s"]:
                    if st[0] == "=" and overlaps(base_path(L.alias(list(st[1]))), bp) and base_path(L.alias(list(st[1]))) == bp:
                        m = step_of(L, f, st, bp)
                        if m is None:
                            ok = False
                        else:
                            moves.append(m)
                tt = f["blocks"][bb]["t"]
                if isinstance(tt, dict) and overlaps(base_path(L.alias(list(tt["d"]))), bp):
                    ok = False
                if isinstance(tt, dict):
                    for o2, ti in zip(tt["a"], tt["at"]):
                        pp = op_place(o2)
                        if pp and P.types[ti]["k"] in ("ref", "ptr") and P.types[ti].get("m") and overlaps(base_path(L.alias(list(pp) + ["*"])), bp):
                            ok = False
            if not ok or not moves:
                continue
            op = r[1]
            if side == 3:
                op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
            # exit when (x op bound) == truth
            up = (op in ("Gt", "Ge")) == truth
            good = any(m > 0 for m in moves) if up else any(m < 0 for m in moves)
            c.ob(okey + "|direction", good, P.where(key, ln), "counters move towards their bound", "the loop exits when the counter is %s its bound but it only moves the other way" % ("above" if up else "below"))


def unmove(L, p):
    for _ in range(8):
        if len(p) == 1:
            ds = [d for d in L.fl.defs.get(p[0], []) if d[0] in L.body and len(d[3]) == 1]
            alld = [d for d in L.fl.defs.get(p[0], []) if len(d[3]) == 1]
            if len(alld) == 1 and len(ds) == 1 and ds[0][1] != "t" and ds[0][2][0] == "use" and op_place(ds[0][2][1]):
                p = op_place(ds[0][2][1])
                continue
        return p
    return p


def step_of(L, f, st, bp):
    """+1 / -1 when the statement adds / subtracts a positive constant to the place itself"""
    r = st[2]
    if r[0] == "use" and op_place(r[1]):
        p = op_place(r[1])
        # checked arithmetic: x = (tmp.0)
        ds = [d for d in L.fl.defs.get(p[0], []) if len(d[3]) == 1]
        if len(ds) == 1 and ds[0][1] != "t" and ds[0][2][0] == "bin":
            r = ds[0][2]
    if r[0] != "bin":
        return None
    a, b = op_place(r[2]), q.const_int(r[3])
    if a is None or b is None:
        return None
    if base_path(L.alias(list(unmove(L, a)))) != bp:
        return None
    if r[1].startswith("Add"):
        return 1 if b > 0 else None
    if r[1].startswith("Sub"):
        return -1 if b > 0 else None
    return None


def recursion(c):
    """no function whose every path to a return calls itself again"""
    P = c.P
    G = q.Calls(P)
    for k in P.local:
        f = P.fns[k]
        if not f.get("identity"):
            continue
        rec = set()
        for b, t in q.calls(f):
            for x in G.targets(t):
                if x == k or (P.fns[x]["path"] == f["path"]):
                    rec.add(b)
        if not rec:
            # two-step cycles
            for b, t in q.calls(f):
                if t["call"].get("unresolved") or t["call"].get("virtual"):
                    continue
                for x in G.targets(t):
                    if P.fns[x]["local"] and always_calls(P, G, x, k):
                        rec.add(b)
        if rec:
            ok = any(isinstance(f["blocks"][b]["t"], list) and f["blocks"][b]["t"][0] == "ret" for b in q.reachable_blocks(P.cfg(k), [0], avoid=rec))
            c.ob("recursion|" + f["path"], ok, P.where(k), "recursion has a base case", "every path to a return of %s calls it again" % f["path"])


def always_calls(P, G, x, k):
    f = P.fns[x]
    bs = set()
    for b, t in q.calls(f):
        if not (t["call"].get("unresolved") or t["call"].get("virtual")) and k in G.targets(t):
            bs.add(b)
    return bool(bs) and not any(isinstance(f["blocks"][b]["t"], list) and f["blocks"][b]["t"][0] == "ret" for b in q.reachable_blocks(P.cfg(x), [0], avoid=bs))
