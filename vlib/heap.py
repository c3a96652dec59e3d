"""Recordings for spec/HeapTrace.tla."""
from .memo import *
from .ell import Grid, el_matrix


def heap_trace(ev, end, plan, counted):
    T = [dict(ev="process")]
    last = {}
    for x, w in zip(ev, plan):
        d = [x.get("alloc", 0), x.get("bytes", 0)] if counted else [0, 0]
        k = w[0]
        if k == "new":
            T.append(dict(ev="new", o=w[1], k=w[2], d=d))
        elif k == "set":
            T.append(dict(ev="set", o=w[1], g=w[2], d=d))
        elif k == "hom":
            T.append(dict(ev="hom", o=w[1], ys=[], d=d))
            last[w[1]] = T[-1]
        elif k == "flag":
            if x["nl"] and w[1] in last:
                last[w[1]]["ys"].append(w[2])
            T.append(dict(ev="other", o=w[1], d=d))
        elif k in ("other", "del"):
            T.append(dict(ev=k, o=w[1], d=d))
    if end:
        T.append(dict(ev="crash", how=end))
    return T


class HeapProg(Prog):
    def add(self, b, inst=None):
        n0 = len(self.L)
        super().add(b, inst)

    def run(self, c, exe, counted, timeout=600, env=None):
        plan = []
        for line, w in zip(self.L, self.plan):
            op = line.split()[0]
            if op == "NEW":
                plan.append(("new", w[1], w[2]))
            elif op == "SET":
                plan.append(("set", w[1], int(line.split()[2])))
            elif op == "HOM":
                plan.append(("hom", w[1]))
            elif op == "NLF":
                plan.append(("flag", w[1], int(line.split()[2])))
            elif op == "READ":
                plan.append(("skip",))
            elif op == "DEL":
                plan.append(("del", w[1]))
            else:
                plan.append(("other", w[1]))
        ev, end = run_driver(exe, "\n".join(self.L) + "\n", c.scratch(), timeout, env)
        # NLF of the looks after a homogenization come before anything else changes
        return heap_trace(ev, end, plan, counted)


def gen_ellheap(c, ngrids, depth, num, seed):
    cfg = cfgtext("GSpec", dict(Objs="{1, 2, 3}", NGrids=ngrids, Depth=depth), ["Emit"])
    return behaviours("GenEllHeap", c.work, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth + 2),
                                                       "-seed", str(seed)])


def ell_heap(c, exe, grids, behs, counted, rnd):
    L, plan = [], []
    for b in behs:
        live = {}
        for a in b:
            o, op, g = a["o"], a["op"], grids[a["k"] - 1]
            if op == "Init":
                L.append("INIT %d %d %d %d %d %d" % (o, g.dim, g.F, g.n[0], g.n[1], g.n[2]))
                plan.append(("new", o, a["k"]))
                live[o] = g
                L.append("ZERO %d" % o)
                plan.append(("other", o))
                continue
            if op == "Free":
                L.append("FREE %d" % o)
                plan.append(("del", o))
                del live[o]
                continue
            es = range(g.nelem) if op == "Fill" else [rnd.randrange(g.nelem)]
            if op in ("Add", "Fill"):
                A = el_matrix(rnd, g.k, 4)
                flat = " ".join(str(x) for row in A for x in row)
                for e in es:
                    L.append("ADD %d %d %d %d %s" % (o, *g.el(e), flat))
                    plan.append(("other", o))
                continue
            if op in ("cg2", "cgs", "jac"):
                if op == "cg2" and g.dim == 3 or op == "jac" and g.dim == 3:
                    op = "cgs"
                L.append("SOLVE %d %s %r %d %s %s" % (o, op, rnd.choice([1e-6, 1e-2, 1e3]), rnd.choice([1, 5, 60]),
                                                      " ".join(str(rnd.randint(-9, 9)) for _ in range(g.N)),
                                                      " ".join("0" for _ in range(g.N))))
            elif op == "Mvp":
                L.append("MVP %d %s" % (o, " ".join(str(rnd.randint(-9, 9)) for _ in range(g.N))))
            else:
                L.append("%s %d" % (op.upper(), o))
            plan.append(("other", o))
        for o in list(live):
            L.append("FREE %d" % o)
            plan.append(("del", o))
    ev, end = run_driver(exe, "\n".join(L) + "\n", c.scratch(), 600)
    return heap_trace(ev, end, plan, counted)
