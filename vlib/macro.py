"""Recordings for spec/MacroTrace.tla: linear tangents, thresholds, difference quotients."""
from copy import copy
from .fieldjobs import *


def sq(v, n, u):
    if v is None or len(v) != n * n:
        return []
    v = [q(x, u) for x in v]
    return [v[i * n:i * n + n] for i in range(n)]


def jumps(cell, e):
    """The affine field puts a force on any interface across any axis: the
    stresses of the two materials differ in the tractions on all of them."""
    d = cell.dim
    P = [(0, 0), (1, 1), (0, 1)] if d == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    tr = sum(e[:d])
    s = [[m.lam * tr + 2 * m.mu * e[i] if i < d else m.mu * e[i] for i in range(len(e))] for m in (cell.m1, cell.m2)]
    ds = [abs(a - b) for a, b in zip(*s)]
    h = min(L / (n - 1) for L, n in zip(cell.len, cell.size[:d]))
    return all(max(ds[i] for i, p in enumerate(P) if a in p) * h ** (d - 1) > 1e-2 for a in range(d))


def lin_tangent(c, exe, cell):
    """(tangent of the shortcut, unit) from an object with an unreachable threshold."""
    cl = copy(cell)
    cl.tol = 1e300
    S = Script()
    S.put(cl.new(0))
    S.put(setline(0, 1, [0.0] * cl.nvoi))
    S.put("HOM 0")
    S.put("TAN 0 1 %d" % cl.nvoi, "tan")
    S.put("DEL 0")
    o = S.run(c, exe)
    v = [num(x) for x in o.get("tan", {}).get("v", [])]
    m = max([abs(x) for x in v if x == x] + [1e-30])
    return v, m / 1e5


def conv_row(text, k):
    rows = parse_rows(text)
    return rows[k] if k < len(rows) else []


def int_strain(rnd, n, top=1000):
    while True:
        e = [rnd.randint(-top, top) for _ in range(n)]
        if rnd.random() < 0.3:
            j = rnd.randrange(n)
            e = [x if i == j else 0 for i, x in enumerate(e)]
        if rnd.random() < 0.3:
            e = [x if rnd.random() < 0.6 else 0 for x in e]
        if max(map(abs, e)) > top // 3:
            return e


def thr_cell(c, exe, cell, u, steps, seed):
    """Points with different strains around thresholds; u: strain unit."""
    rnd = random.Random("thr-%s" % seed)
    n = cell.nvoi
    v, uC = lin_tangent(c, exe, cell)
    C = sq(v, n, uC)
    T = [dict(ev="cell", c=dict(dim=cell.dim, nvoi=n)), dict(ev="lin", C=C, t=200)]
    if not C:
        return T
    def inv(e):
        return sum(C[i][j] * e[j] for i in range(cell.dim) for j in range(n)) / 10.0
    hetero = cell.m1.E != cell.m2.E
    for _ in range(steps):
        strains = [int_strain(rnd, n) for _ in range(3)]
        a = sorted(abs(inv(e)) for e in strains)
        kind = rnd.random()
        tol = (rnd.choice([0, 0, -5, -10**8, 10**9]) if kind < 0.3 else
               a[1] * rnd.choice([0.985, 1.015, 0.5]) if kind < 0.8 else (a[0] + a[2]) / 2)
        tol = int(tol)
        cl = copy(cell)
        cl.tol = tol * 10.0 * uC * u
        S = Script()
        S.put(cl.new(0))
        hist = []
        k = 0
        for r in range(rnd.choice([1, 2, 3])):
            es = []
            for g, e in enumerate(strains):
                f = rnd.choice([1, 1, -1])
                e = [x * f for x in e]
                if r and rnd.random() < 0.4:
                    e = int_strain(rnd, n)
                    if rnd.random() < 0.5:       # small: below most thresholds
                        e = [x // 100 for x in e]
                es.append(e)
            for g, e in enumerate(es):
                # one point at a time decides what the solves belong to
                S.put(setline(0, g, [x * u for x in e]))
                S.put("HOM 0", ("hom", k, g))
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", k))
            for g in range(len(es)):
                S.put("NLF 0 %d" % g, ("nl", k, g))
                S.put("SIG 0 %d %d" % (g, n), ("sig", k, g))
                S.put("TAN 0 %d %d" % (g, n), ("tan", k, g))
            hist.append(es)
            if rnd.random() < 0.5:
                S.put("UPD 0")
            k += 1
        S.put("DEL 0")
        o = S.run(c, exe)
        T.append(dict(ev="fresh"))
        for k, es in enumerate(hist):
            if ("conv", k) not in o:
                break
            for g, e in enumerate(es):
                row = conv_row(o[("conv", k)].get("text", ""), g)
                its = int(row[2]) if len(row) > 2 and row[2] == row[2] else -1
                nl = o[("nl", k, g)]["nl"]
                # linear systems of the last homogenization, when all points share an answer
                ev = dict(ev="thr", id=g, e=e, tol=tol, its=its, nl=nl, solves=its,
                          mustwork=bool(hetero and not cell.exact and jumps(cell, [x * u for x in e])))
                if len(es) == 1 or k == 0 and g == 0:
                    ev["solves"] = o[("hom", k, g)]["solves"] if k == 0 and g == 0 else its
                T.append(ev)
                if its == 0 and nl == 0:
                    sv = [q(num(x), uC * u) for x in o[("sig", k, g)].get("v", [])]
                    T.append(dict(ev="prod", e=e, s=sv, t=sum(map(abs, e)) + 50))
                    T.append(dict(ev="same", C=sq([num(x) for x in o[("tan", k, g)].get("v", [])], n, uC), t=400))
                c.count("threshold_" + ("linear" if its == 0 else "solved"))
        if S.end:
            T.append(dict(ev="crash", how=S.end))
    return T


def fd_linear(c, exe, cell, u, seed, nst=3):
    """Linear cells: solved tangents are the linear one, C e is the stress, and
    the difference quotient of the stress is the tangent."""
    rnd = random.Random("fdl-%s" % seed)
    n = cell.nvoi
    v, uC = lin_tangent(c, exe, cell)
    C = sq(v, n, uC)
    T = [dict(ev="cell", c=dict(dim=cell.dim, nvoi=n)), dict(ev="lin", C=C, t=300)]
    if not C:
        return T
    S = Script()
    S.put(cell.new(0))
    es = [int_strain(rnd, n) for _ in range(nst)] + [[0] * n]
    for g, e in enumerate(es):
        S.put(setline(0, g, [x * u for x in e]))
    S.put("HOM 0")
    for g, e in enumerate(es):
        S.put("SIG 0 %d %d" % (g, n), ("sig", g))
        S.put("TAN 0 %d %d" % (g, n), ("tan", g))
    # columns by unit strains
    h = 1000 * u
    for j in range(n):
        S.put(setline(0, 100 + j, [h if i == j else 0.0 for i in range(n)]))
    S.put("HOM 0")
    for j in range(n):
        S.put("SIG 0 %d %d" % (100 + j, n), ("col", j))
    S.put("DEL 0")
    o = S.run(c, exe)
    for g, e in enumerate(es):
        if ("tan", g) not in o:
            break
        T.append(dict(ev="same", C=sq([num(x) for x in o[("tan", g)].get("v", [])], n, uC), t=600))
        T.append(dict(ev="prod", e=e, s=[q(num(x), uC * u) for x in o[("sig", g)].get("v", [])], t=sum(map(abs, e)) + 50))
    if ("col", n - 1) in o:
        D = [[num(o[("col", j)]["v"][i]) / h if "v" in o[("col", j)] else float("nan") for j in range(n)] for i in range(n)]
        T.append(dict(ev="fd", C=C, D=[[q(x, uC) for x in r] for r in D], t=300))
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def fd_plastic(c, exe, fc, path, seed, delta=1e-6):
    """Heterogeneous plastic cells: commit a path, then difference quotients at
    the last strain against the reported tangent."""
    cell, n = fc.cell, 6
    S = Script()
    S.put(cell.new(0))
    for e in path[:-1]:
        S.put(setline(0, 1, fc.strain(e)))
        S.put("HOM 0")
        S.put("UPD 0")
    S.put("WRI 0")
    S.put("LAST micropp_convergence.dat", ("conv", "h"))
    e = fc.strain(path[-1])
    S.put(setline(0, 1, e))
    S.put("HOM 0")
    S.put("WRI 0")
    S.put("LAST micropp_convergence.dat", ("conv", "b"))
    S.put("SIG 0 1 6", "sig0")
    S.put("TAN 0 1 6", "tan")
    S.put("NLF 0 1", "nl")
    for j in range(6):
        for s in (1, -1):
            f = [x + (s * delta if i == j else 0.0) for i, x in enumerate(e)]
            S.put(setline(0, 1, f))
            S.put("HOM 0")
            S.put("SIG 0 1 6", ("sig", j, s))
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", j, s))
    S.put("DEL 0")
    o = S.run(c, exe)
    T = [dict(ev="cell", c=dict(dim=3, nvoi=6))]
    bad = any(unconverged(x.get("text", "")) for k, x in o.items() if k[0] == "conv")
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    elif bad:
        c.count("fd_skipped_unconverged")
    else:
        v = [num(x) for x in o["tan"].get("v", [])]
        s0 = [num(x) for x in o["sig0"]["v"]]
        F, B = ([[s * (num(o[("sig", j, s)]["v"][i]) - s0[i]) / delta for j in range(6)] for i in range(6)] for s in (1, -1))
        m = max(max(abs(x) for x in r) for r in F + B)
        uC = m / 1e5
        F, B = ([[q(x, uC) for x in r] for r in M] for M in (F, B))
        T.append(dict(ev="fdk", C=sq(v, 6, uC), F=F, B=B, t=2500, k=800))
        kinks = sum(any(abs(F[i][j] - B[i][j]) > 800 for i in range(6)) for j in range(6))
        c.count("fd_columns_smooth", 6 - kinks)
        c.count("fd_columns_at_kink", kinks)
        c.count("fd_" + ("yielded" if o["nl"]["nl"] else "elastic"))
    return T


def macro_jobs(c, items, parts=7):
    """items: functions returning events."""
    groups = [items[i::parts] for i in range(parts)]

    def one(gr):
        def rec():
            T = []
            for f in gr:
                T += f()
            return T
        T = rec()
        return ("MacroTrace", None, T, dict(traces=len(gr), again=rec))
    with ThreadPoolExecutor(7) as ex:
        return list(ex.map(one, [g for g in groups if g]))
