"""Structured matrices: generated call sequences, recordings for spec/EllTrace.tla."""
from fractions import Fraction
from .common import *

SCALES = [0, 0, -50, -90, 40, 80, -30, 20]
ELLTRACE = cfgtext("TSpec", view="TView", post="Accepted")
CORNER = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]


class Grid:
    def __init__(self, dim, n, F):
        self.dim, self.F = dim, F
        self.n = list(n[:dim]) + ([1] if dim == 2 else [])
        self.ne = [x - 1 for x in self.n[:dim]]
        self.nelem = 1
        for x in self.ne:
            self.nelem *= x
        self.nn = self.n[0] * self.n[1] * self.n[2]
        self.N = self.nn * F
        self.k = (4 if dim == 2 else 8) * F

    def tla(self):
        return dict(dim=self.dim, n=self.n, F=self.F)

    def el(self, e):
        return [e % self.ne[0], e // self.ne[0] % self.ne[1],
                e // (self.ne[0] * self.ne[1]) if self.dim == 3 else 0]

    def unknowns(self, e):
        x = self.el(e)
        out = []
        for c in CORNER[:4 if self.dim == 2 else 8]:
            m = ((x[2] + c[2]) * self.n[1] + x[1] + c[1]) * self.n[0] + x[0] + c[0]
            out += [m * self.F + f for f in range(self.F)]
        return out

    def boundary(self, r):
        m = r // self.F
        p = [m % self.n[0], m // self.n[0] % self.n[1], m // (self.n[0] * self.n[1])]
        return any(p[d] in (0, self.n[d] - 1) for d in range(self.dim))


def el_matrix(rnd, k, shape, big=9):
    if shape == 1:
        A = [[0] * k for _ in range(k)]
        for i in range(k):
            for j in range(i, k):
                A[i][j] = A[j][i] = rnd.randint(-big, big)
        return A
    if shape == 2:
        return [[rnd.randint(-big, big) for _ in range(k)] for _ in range(k)]
    if shape == 3:         # one entry
        A = [[0] * k for _ in range(k)]
        A[rnd.randrange(k)][rnd.randrange(k)] = rnd.choice([1, -7, 1000])
        return A
    if shape == 4:         # positive definite
        A = [[0] * k for _ in range(k)]
        for _ in range(3):
            v = [rnd.choice((-1, 0, 0, 1)) for _ in range(k)]
            for i in range(k):
                for j in range(k):
                    A[i][j] += v[i] * v[j]
        for i in range(k):
            A[i][i] += rnd.randint(1, 3)
        return A
    if shape[0] == 6:      # as below, weights far apart: strong along one axis
        F, big, ax = shape[1:]
        n = k // F
        A = [[0] * k for _ in range(k)]
        for a in range(n):
            for b in range(a):
                along = CORNER[a][ax] != CORNER[b][ax] and sum(x != y for x, y in zip(CORNER[a], CORNER[b])) == 1
                w = rnd.randint(1, 4) * (big if along else 1)
                for f in range(F):
                    i, j = a * F + f, b * F + f
                    A[i][i] += w
                    A[j][j] += w
                    A[i][j] -= w
                    A[j][i] -= w
        return A
    # graph Laplacian per field: semidefinite, definite once the boundary is fixed
    F = shape[1]
    n = k // F
    A = [[0] * k for _ in range(k)]
    for a in range(n):
        for b in range(a):
            w = rnd.randint(1, 4)
            for f in range(F):
                i, j = a * F + f, b * F + f
                A[i][i] += w
                A[j][j] += w
                A[i][j] -= w
                A[j][i] -= w
    return A


def gen_ell(c, gr, depth, num, shapes, seed):
    p = os.path.join(c.work, "ell%d.ndjson" % random.SystemRandom().randrange(10**9))
    with open(p, "w") as f:
        f.write(json.dumps(dict(nelem=gr.nelem, shapes=shapes, depth=depth)) + "\n")
    return behaviours("GenEll", c.work, cfgtext("GSpec", None, ["Emit"]), env={"OPTS": p},
                      args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)])


def exact_int(x, scale=1.0):
    x = num(x) / scale
    if x != x or x != int(x) if abs(x) < 1e15 else True:
        return CLAMP
    return max(-CLAMP, min(CLAMP, int(x)))


def ell_history(c, exe, gr, behs, seed, dense=True, env=None):
    """Replay generated sequences; returns the recording."""
    rnd = random.Random("ell-%s" % seed)
    L, plan = [], []

    def put(line, w):
        L.append(line)
        plan.append(w)

    def add(e, s):
        A = el_matrix(rnd, gr.k, s)
        x = gr.el(e)
        put("ADD 0 %d %d %d %s" % (x[0], x[1], x[2], " ".join(repr(v * sc[0]) for r in A for v in r)), ("add", e, A))
    sc = [1.0, 1.0]
    for k, b in enumerate(behs):
        # units of the entries and of the vectors: powers of two, so that nothing
        # is rounded; not where rows of the identity come in
        sc = [1.0, 1.0] if any(a["op"] == "Bc" for a in b) else [2.0 ** rnd.choice(SCALES), 2.0 ** rnd.choice(SCALES)]
        put("INIT 0 %d %d %d %d %d" % (gr.dim, gr.F, gr.n[0], gr.n[1], gr.n[2]), ("init",))
        put("ZERO 0", ("zero",))
        bc = False
        for a in b:
            op = a["op"]
            if op == "Add":
                add(a["e"], a["s"])
            elif op == "Fill":
                o = list(range(gr.nelem))
                rnd.shuffle(o)
                for e in o:
                    add(e, a["s"])
            elif op == "Zero":
                put("ZERO 0", ("zero",))
            elif op == "Bc":
                put("BC 0", ("bc",))
            elif op == "Mvp":
                x = [rnd.randint(-99, 99) if a["v"] == 1 else rnd.choice((0, 0, 0, 1, -1)) if a["v"] == 2
                     else (i * 37) % 101 - 50 for i in range(gr.N)]
                put("MVP 0 " + " ".join(repr(v * sc[1]) for v in x), ("mvp", x, sc[0] * sc[1]))
            elif op == "Dense":
                if dense:
                    put("DENSE 0", ("dense", sc[0]))
        put("FREE 0", ("skip",))
    ev, end = run_driver(exe, "\n".join(L) + "\n", c.scratch(), 300, env)
    T = []
    for o, w in zip(ev, plan):
        k = w[0]
        if k == "init":
            T.append(dict(ev="init", g=gr.tla(), nrow=o["nrow"], ncol=o["ncol"]))
        elif k in ("zero", "bc"):
            T.append(dict(ev=k))
        elif k == "add":
            T.append(dict(ev="add", e=w[1], A=w[2]))
        elif k == "mvp":
            T.append(dict(ev="mvp", x=w[1], y=[exact_int(v, w[2]) for v in o["y"]], kept=o["kept"]))
        elif k == "dense":
            T.append(dict(ev="dense", cols=[[exact_int(v, w[1]) for v in col] for col in o["cols"]]))
    if end:
        T.append(dict(ev="crash", how=end))
    return T, L


# -------------------------------------------------------------------- solves

SC = 1 << 200


def residual(gr, rows, x, b):
    """Exact norm of A x - b."""
    xi = []
    for v in x:
        v = num(v)
        if v != v or abs(v) > 1e200:
            return float("inf")
        f = Fraction(v) * SC
        xi.append(f.numerator // f.denominator)
    t = 0
    for r in range(gr.N):
        s = sum(a * xi[q] for q, a in rows[r].items()) - int(Fraction(b[r]) * SC)
        t += s * s
    return float(math_sqrt(Fraction(t, SC * SC)))


def math_sqrt(f):
    import math
    return math.sqrt(f) if f > 0 else 0.0


def unit_tol(v, tol):
    """v in units of tol/1000, rounded so that 1000 means "not below"."""
    if v != v:
        return -1
    if v >= 1e6 * tol:
        return 10**9
    f = Fraction(v) * 1000 / Fraction(tol)
    return f.numerator // f.denominator


def solve_runs(c, exe, gr, seed, nruns, kinds, env=None, long=None):
    rnd = random.Random("sol-%s" % seed)
    L, plan = [], []

    def put(line, w):
        L.append(line)
        plan.append(w)
    put("INIT 0 %d %d %d %d %d" % (gr.dim, gr.F, gr.n[0], gr.n[1], gr.n[2]), ("init",))
    put("ZERO 0", ("zero",))
    rows = [dict() for _ in range(gr.N)]
    kindm = rnd.choice([4, (5, gr.F)]) if not long else (6, gr.F, long[0], long[1])
    for e in rnd.sample(range(gr.nelem), gr.nelem):
        A = el_matrix(rnd, gr.k, kindm)
        x = gr.el(e)
        put("ADD 0 %d %d %d %s" % (x[0], x[1], x[2], " ".join(str(v) for r in A for v in r)), ("add", e, A))
        un = gr.unknowns(e)
        for i, r in enumerate(un):
            for j, s in enumerate(un):
                if A[i][j]:
                    rows[r][s] = rows[r].get(s, 0) + A[i][j]
    put("BC 0", ("bc",))
    for r in range(gr.N):
        if gr.boundary(r):
            rows[r] = {r: 1}
        else:
            rows[r] = {s: a for s, a in rows[r].items() if not gr.boundary(s)}
    rowsum = max(sum(abs(a) for a in rw.values()) for rw in rows)
    last = None
    for t in range(nruns):
        kind = rnd.choice(kinds)
        if rnd.random() < 0.15:
            b = [0] * gr.N
        elif rnd.random() < 0.2:
            b = [0] * gr.N
            b[rnd.randrange(gr.N)] = rnd.choice([1, -1000])
        elif rnd.random() < 0.5:
            b = [rnd.randint(-1000, 1000) for _ in range(gr.N)]
        else:          # zero on the boundary, as in the library's own use
            b = [0 if gr.boundary(r) else rnd.randint(-1000, 1000) for r in range(gr.N)]
        m = rnd.random()
        x0 = [0.0] * gr.N
        if m < 0.25:
            x0 = [float(rnd.randint(-50, 50)) for _ in range(gr.N)]
        elif m < 0.5:      # start from the solution (integers, so exactly)
            x0 = [float(rnd.randint(-20, 20)) for _ in range(gr.N)]
            b = [sum(a * int(x0[s]) for s, a in rows[r].items()) for r in range(gr.N)]
            if m < 0.35:   # almost
                x0[rnd.randrange(gr.N)] += 10 ** rnd.uniform(-12, 0)
        tol = rnd.choice([1e-8, 1e-9, 1e-11, 1e-12, 1e-5, 1e-3, 0.5, 10.0, 10 ** rnd.uniform(-8, 1)])
        lim = rnd.choice([0, 1, 2, 3, 5, 10, 2000, 2000, 2000, gr.N])
        if long:
            tol, lim = rnd.choice([1e-8, 1e-6, 1e-3]), rnd.choice([50, 70, 100, 2000, 2000])
        put("SOLVE 0 %s %r %d %s %s" % (kind, tol, lim, fmt(b), fmt(x0)), ("solve", kind, tol, lim, b, x0))
    put("DENSE 0", ("dense",))
    put("FREE 0", ("skip",))
    ev, end = run_driver(exe, "\n".join(L) + "\n", c.scratch(), 300, env)
    T = []
    stats = {}
    for o, w in zip(ev, plan):
        k = w[0]
        if k == "init":
            T.append(dict(ev="init", g=gr.tla(), nrow=o["nrow"], ncol=o["ncol"]))
        elif k in ("zero", "bc"):
            T.append(dict(ev=k))
        elif k == "add":
            T.append(dict(ev="add", e=w[1], A=w[2]))
        elif k == "dense":
            T.append(dict(ev="dense", cols=[[exact_int(v) for v in col] for col in o["cols"]]))
        elif k == "solve":
            _, kind, tol, lim, b, x0 = w
            x = [num(v) for v in o["x"]]
            xm = max([abs(v) for v in x + x0 if v == v and abs(v) < 1e200] + [1.0])
            drift = 1e-13 * (rowsum * xm + max(map(abs, b))) * (gr.N ** 0.5) * 20
            res, res0 = residual(gr, rows, x, b), residual(gr, rows, x0, b)
            S = int(min(4096, 5e8 / (rowsum * xm + max(map(abs, b)) + 1), 1e9 / (max(map(abs, b)) + 1)))
            err = num(o["err"])
            cap = int(1e9 / rowsum)
            e = unit_tol(err, tol)
            T.append(dict(ev="solve", kind=kind, rc=o["rc"], its=o["its"], limit=lim, err=e,
                          res=unit_tol(res, tol), res0=unit_tol(res0, tol),
                          drift=int(min(1e9, 1000 * drift / tol)) + 1, same=(x == x0), kept=o["kept"],
                          quick=2 * gr.N + 20 if tol >= 1e-8 else 4 * gr.N + 60, S=max(S, 0),
                          xq=[max(-cap, min(cap, q(v, 1.0 / max(S, 1)))) for v in x], b=b,
                          resq=int(min(1e9, S * (tol + drift) + 0.5 * rowsum + 3))))
            c.notes["most_iterations"] = max(c.notes.get("most_iterations", 0), o["its"])
            c.count("solves_" + kind + ("_converged" if err < tol else "_limit"))
    if end:
        T.append(dict(ev="crash", how=end))
    return T, L
