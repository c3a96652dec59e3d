"""Recordings for spec/SymmTrace.tla."""
import itertools
from .hist import *

PAIRS = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]}


def frames(dim, micro):
    out = []
    for p in itertools.permutations(range(dim)):
        for s in itertools.product((1, -1), repeat=dim):
            if micro == 0 or (p[1] == 1 and s[1] == 1):
                out.append((p, s))
    return out


def push_vec(f, v):
    out = [0] * len(v)
    for a, x in enumerate(v):
        out[f[0][a]] = x
    return out


def push_tensor(dim, f, t):
    out = [0] * len(t)
    ix = {frozenset(p): i for i, p in enumerate(PAIRS[dim])}
    for i, (a, b) in enumerate(PAIRS[dim]):
        out[ix[frozenset((f[0][a], f[0][b]))]] = f[1][a] * f[1][b] * t[i]
    return out


def clear_width(rnd, dim, size, lens, micro):
    """A radius or thickness that no element centre is near to."""
    h = [L / (n - 1) for n, L in zip(size, lens)]
    if micro == 1:
        ds = [(i + 0.5) * h[1] for i in range(size[1] - 1)]
    else:
        ds = [math.sqrt(sum(((i + 0.5) * hh - L / 2) ** 2 for i, hh, L in zip(ix, h, lens)))
              for ix in itertools.product(*[range(n - 1) for n in size])]
    ds = sorted(set(round(x, 9) for x in ds))
    gaps = [(a + b) / 2 for a, b in zip(ds, ds[1:]) if b - a > 1e-3]
    return rnd.choice(gaps) if gaps else ds[0] * 1.5


def symm_run(c, exe, cell, istr, behs, fr, u):
    """istr: integer strains in the base frame; fr: frames, the identity first."""
    dim, n = cell.dim, cell.nvoi
    un = sym_units(cell, [[x * u for x in e] for e in istr])
    size, lens = cell.size[:dim], cell.len[:dim]
    L, plan = [], []

    def put(line, *w):
        L.append(line)
        plan.append(w)
    for f in fr:
        cl = Cell(dim, push_vec(f, size), cell.micro, push_vec(f, lens), cell.width, cell.m1, cell.m2, cell.tol)
        for bi, b in enumerate(behs):
            put(cl.new(0), "new", f, cl)
            for k, a in enumerate(b):
                if a["op"] == "Set":
                    e = push_tensor(dim, f, istr[a["e"] - 1])
                    put(setline(0, a["g"], [x * u for x in e]), "set", a["g"], e)
                elif a["op"] == "Hom":
                    put("HOM 0", "hom")
                    for g in sorted(set(x["g"] for x in b[:k] if x["op"] == "Set")):
                        put("SIG 0 %d %d" % (g, n), "sig", g)
                        put("TAN 0 %d %d" % (g, n), "tan", g)
                        put("NLF 0 %d" % g, "nlf", bi, k * 100 + g)
                elif a["op"] == "Upd":
                    put("UPD 0", "upd")
                    for g in sorted(set(x["g"] for x in b[:k] if x["op"] == "Set"))[:1]:
                        put("OUT 0 1 %d" % g, "skip")
                        put("READ micropp_%d_1.vtu" % g, "all", g)
            put("DEL 0", "skip")
    ev, end = run_driver(exe, "\n".join(L) + "\n", c.scratch(), 600)
    T = [dict(ev="cfg", dim=dim, micro=cell.micro, size=size, len=[q(x, 1e-4) for x in lens],
              tsig=un["tsig"], ttan=un["ttan"], tall=un["tvar"] * cell.nelem)]
    for o, w in zip(ev, plan):
        k = w[0]
        if k == "new":
            f, cl = w[1], w[2]
            T.append(dict(ev="new", p=[a + 1 for a in f[0]], s=list(f[1]), size=cl.size[:dim],
                          len=[q(x, 1e-4) for x in cl.len[:dim]]))
        elif k == "set":
            T.append(dict(ev="set", g=w[1], e=w[2]))
        elif k in ("hom", "upd"):
            T.append(dict(ev=k))
        elif k in ("sig", "tan"):
            T.append(dict(ev=k, g=w[1], v=[q(x, un["u" + k]) for x in o.get("v", [])]))
        elif k == "nlf":
            T.append(dict(ev=k, b=w[1], k=w[2], v=[o["nl"]]))
        elif k == "all" and not o.get("absent"):
            x = parse_vtu(o["text"])
            T.append(dict(ev="all", g=w[1], v=[q(sum(x.get("elem_type", [-1])), 1e-6),
                                               q(sum(x.get("plasticity", [-1])), un["uvar"]),
                                               q(sum(x.get("hardening", [-1])), un["uvar"])]))
    if end:
        T.append(dict(ev="crash", how=end))
    return T
