"""Cells that see the imposed strain everywhere, in the coordinates of spec/J2.tla."""
from .micro import *

S6, S2, S3 = math.sqrt(6), math.sqrt(2), math.sqrt(3)
# orthonormal basis of the deviatoric tensors; tensor components xx yy zz xy xz yz
BASIS = [
    [2 / S6, -1 / S6, -1 / S6, 0, 0, 0],
    [0, 1 / S2, -1 / S2, 0, 0, 0],
    [0, 0, 0, 1 / S2, 0, 0],
    [0, 0, 0, 0, 1 / S2, 0],
    [0, 0, 0, 0, 0, 1 / S2],
]
WT = [1, 1, 1, 2, 2, 2]          # multiplicity of tensor components


def strain_of(p, x, u0):
    """Voigt strain (engineering shears) of volumetric p and deviator x."""
    t = [p * u0 if i < 3 else 0.0 for i in range(6)]
    for d in range(5):
        for i in range(6):
            t[i] += u0 * x[d] * BASIS[d][i]
    return [t[i] if i < 3 else 2 * t[i] for i in range(6)]


def coords(t):
    """(mean, five coordinates) of a symmetric tensor with tensor components t."""
    m = (t[0] + t[1] + t[2]) / 3
    return m, [sum(BASIS[d][i] * WT[i] * t[i] for i in range(6)) for d in range(5)]


def directions(rnd, k):
    """k integer directions of norm 10 with even entries, signs mixed; all five
    coordinates occur, among them dense ones."""
    base = [(10, 0, 0, 0, 0), (6, 8, 0, 0, 0), (8, 4, 4, 2, 0), (4, 4, 4, 4, 6), (8, 4, 2, 4, 0),
            (6, 4, 4, 4, 4), (8, 6, 0, 0, 0), (2, 8, 4, 4, 0)]
    out = []
    while len(out) < k:
        b = list(rnd.choice(base)) if out else [4, 4, 4, 4, 6]
        rnd.shuffle(b)
        b = [v * rnd.choice((1, -1)) for v in b]
        if b not in out:
            out.append(b)
    return out


class J2Cell:
    """mats: list of dict(mu, k, R0, H, plastic) in integer multiples of the units;
    material 1 fills the cell unless layers are asked for."""

    def __init__(self, rnd, size, mats, p2=0, u0=None, E=None, nu=None, lengths=None, n2=0):
        self.u0 = u0 or 10 ** (rnd.uniform(-5, -3.7) if rnd.random() < 0.7 else rnd.uniform(-3.7, -1.5))
        mu, kk = (E, nu) if E else (10 ** rnd.uniform(5.3, 6.7), None)
        nu = nu if nu is not None else rnd.choice([0.0, 0.1, 0.25, 0.3, 0.45, 0.49, -0.2, -0.6])
        # unit moduli
        self.mu = mu
        self.k = 2 * mu * (1 + nu) / (3 * (1 - 2 * nu))
        self.mats = mats
        self.p2 = p2
        L = lengths or [rnd.choice([0.5, 1.0, 1.5, 2.0, 3.0]) for _ in range(3)]
        ms = []
        for m in mats:
            mu_, k_ = m["mu"] * self.mu, m["k"] * self.k
            nu_ = (3 * k_ - 2 * mu_) / (2 * (3 * k_ + mu_))
            E_ = 2 * mu_ * (1 + nu_)
            Sy = m["R0"] * self.u0 * 2 * mu_ / math.sqrt(2.0 / 3)
            Ka = m["H"] * 3 * mu_
            ms.append(Mat(E_, nu_, Sy, Ka, 1 if m["plastic"] else 0))
        if len(ms) == 1:
            ms.append(ms[0])
        tol = p2 / 2.0 * self.u0
        if p2 == 1:      # anything between no invariant at all and the smallest there is
            tol *= rnd.choice([1.0, 1.0, 1e-2, 1e-5])
        ny = size[1]
        # layers: the lowest n2 rows of elements are material 2
        self.n2 = n2
        width = L[1] * n2 / (ny - 1.0) if len(mats) > 1 else L[1] * rnd.choice([0.3, 0.6])
        self.cell = Cell(3, size, 1, L, width, ms[0], ms[1], 0.0)
        c = self.cell
        row = c.ne[0] * c.ne[2]
        self.n = [c.nelem - row * n2, row * n2] if len(mats) > 1 else [c.nelem]
        kbar = sum(n * m["k"] for n, m in zip(self.n, mats)) * self.k / c.nelem
        c.tol = 3 * 3 * kbar * tol
        self.tm = [dict(mu=m["mu"], k=m["k"], R0=m["R0"], H=m["H"], n=n, plastic=m["plastic"])
                   for m, n in zip(mats, self.n)]
        self.summu = sum(n * m["mu"] for n, m in zip(self.n, mats))
        self.sumk = sum(n * m["k"] for n, m in zip(self.n, mats))

    def opts(self, ids, dirs, ks, ps, depth, mx=400, obs=False):
        return dict(mats=self.tm, p2=self.p2, ids=ids, dirs=dirs, ks=ks, ps=ps, depth=depth, max=mx, obs=obs)

    def elem_mat(self, e):
        c = self.cell
        ey = (e // c.ne[0]) % c.ne[1]
        return 1 if ey < self.n2 else 0


GENJ2 = cfgtext("GSpec", dict(Mats="OptMats", P2="OptP2"), ["Emit"])
J2TRACE = cfgtext("TSpec", dict(Mats="TraceMats", P2="TraceP2"), view="TView", post="Accepted")


def gen_j2(c, jc, ids, dirs, ks, ps, depth, num, seed, mx=400, obs=False):
    p = os.path.join(c.work, "opts%d.ndjson" % random.SystemRandom().randrange(10**9))
    with open(p, "w") as f:
        f.write(json.dumps(jc.opts(ids, dirs, ks, ps, depth, mx, obs)) + "\n")
    # every simulated behaviour ends at full depth or in a dead end
    b, r = behaviours("GenJ2", c.work, GENJ2, env={"OPTS": p},
                      args=["-simulate", "num=%d" % num, "-depth", str(depth + 2), "-seed", str(seed)])
    return b, r


def record_j2(jc, exe, cwd, behs, what, inst=0, smax=None, tsig=30, ttan=None, conv=False):
    """what: subset of {'sig','tan','nlf','var'}.  conv: iterative cell; the
    recording of an episode stops at the first answer that did not converge."""
    c, u0 = jc.cell, jc.u0
    big = max([abs(v) for b in behs for a in b if a["op"] == "Set" for v in a["x"] + [a["p"]]] + [1])
    # stresses are elastic answers to strain minus plastic strain; the latter is
    # between strains imposed before
    unit = 2 * big * max(jc.summu, jc.sumk)
    S = max(1, int(9e8 / unit))
    ST = max(1000, int(4e8 / max(jc.summu, jc.sumk)) // 1000 * 1000)
    ST = min(ST, 1000000)
    cfg = dict(ev="cfg", mats=jc.tm, p2=jc.p2, S=S, tsig=tsig, ST=ST,
               ttan=ttan or max(3, int(3e-4 * ST * max(jc.summu, jc.sumk))), SV=1000, tvar=8)
    L, plan = [], []
    ts = 0

    def put(line, w):
        L.append(line)
        plan.append(w)
    for b in behs:
        put(c.new(inst), ("new",))
        known = []
        for a in b:
            if a["op"] == "Set":
                if a["g"] not in known:
                    known.append(a["g"])
                put(setline(inst, a["g"], strain_of(a["p"], a["x"], u0)), ("set", a["g"], a["p"], a["x"]))
            elif a["op"] == "Hom":
                put("HOM %d" % inst, ("hom",))
                if conv:
                    put("WRI %d" % inst, ("wri",))
                    put("LAST micropp_convergence.dat", ("conv",))
                for g in known:
                    if "sig" in what:
                        put("SIG %d %d 6" % (inst, g), ("sig", g))
                    if "tan" in what:
                        put("TAN %d %d 6" % (inst, g), ("tan", g))
                    if "nlf" in what:
                        put("NLF %d %d" % (inst, g), ("nlf", g))
            elif a["op"] == "Obs":
                ts += 1
                if a["k"] == "Out":
                    put("OUT %d %d %d" % (inst, ts, a["g"]), ("out", a["g"], ts))
                elif a["k"] == "Wri":
                    put("WRI %d" % inst, ("wri",))
                else:
                    put("SIG %d %d 6" % (inst, a["g"]), ("skip",))
                    put("TAN %d %d 6" % (inst, a["g"]), ("skip",))
                    put("NLF %d %d" % (inst, a["g"]), ("nlf", a["g"]))
            elif a["op"] == "Upd":
                put("UPD %d" % inst, ("upd",))
                if "var" in what and known:
                    put("WRI %d" % inst, ("wri",))
                    put("LAST micropp_int_vars_n.dat", ("var", len(known)))
                if "nlf" in what:
                    for g in known:
                        put("NLF %d %d" % (inst, g), ("nlf", g))
        put("DEL %d" % inst, ("skip",))
    ev, end = run_driver(exe, "\n".join(L) + "\n", cwd, 600)
    T = [cfg]
    drop = False
    dropped = 0
    for o, w in zip(ev, plan):
        k = w[0]
        if k == "new":
            drop = False
        if drop or k == "skip":
            continue
        if k in ("new", "hom", "upd", "wri"):
            T.append(dict(ev=k))
        elif k == "conv":
            for row in parse_rows(o.get("text", "")):
                if gave_up(row):
                    drop = True
            if drop:
                dropped += 1
                while T[-1]["ev"] in ("hom", "wri"):
                    T.pop()
        elif k == "set":
            T.append(dict(ev="set", g=w[1], p=w[2], x=w[3]))
        elif k == "sig":
            none = bool(o.get("none"))
            v = []
            if not none:
                m, d = coords([num(x) for x in o["v"]])
                n = c.nelem
                v = [q(m * n, 3 * jc.k * u0 / S)] + [q(x * n, 2 * jc.mu * u0 / S) for x in d]
            T.append(dict(ev="sig", g=w[1], none=none, v=v))
        elif k == "tan":
            none = bool(o.get("none"))
            v = []
            if not none:
                v = law_tangent([num(x) for x in o["v"]], c.nelem, jc.k, jc.mu, ST)
            T.append(dict(ev="tan", g=w[1], none=none, v=v))
        elif k == "out":
            T.append(dict(ev="out", g=w[1], ts=w[2]))
        elif k == "nlf":
            T.append(dict(ev="nlf", g=w[1], v=[o["nl"]]))
        elif k == "var":
            rows = [x.split() for x in o.get("text", "").split("|") if x.strip()]
            for i in range(max(w[1], len(rows))):
                r = rows[i] if i < len(rows) else []
                raw = [set() for _ in jc.tm]
                if len(r) == c.nvars:
                    for e in range(c.nelem):
                        mi = jc.elem_mat(e) if len(jc.tm) > 1 else 0
                        raw[mi].update(zip(*[iter(r[e * 56:e * 56 + 56])] * 7))
                sets = [set() for _ in jc.tm]
                for mi, ts in enumerate(raw):
                    if not ts:
                        sets[mi].add((CLAMP,) * 7)
                    for t in ts:
                        t = floats(" ".join(t))
                        m, d = coords(t[:6])
                        sets[mi].add(tuple([q(m, u0 / 1000)] + [q(x, u0 / 1000) for x in d] +
                                           [q(t[6] * math.sqrt(1.5), u0 / 1000)]))
                T.append(dict(ev="var", k=i + 1, n=len(rows), v=[sorted(s) for s in sets]))
    if end:
        T.append(dict(ev="crash", how=end))
    return T, L, dropped


def law_tangent(t, nelem, k, mu, ST):
    """6x6 Voigt tangent -> (1+5)x(1+5) in the law's coordinates, summed over
    elements and divided by 3k / 2mu, times ST."""
    # basis vectors in Voigt strain (engineering shear) and stress (tensor) form
    vol = [1 / S3] * 3 + [0.0] * 3
    Bs = [vol] + BASIS
    out = []
    for i in range(6):
        for j in range(6):
            s = 0.0
            for a in range(6):
                for b in range(6):
                    # stress coordinate i: sum_a B_i[a]*WT[a]*sig[a]; strain e_b = WT[b]*B_j[b]
                    s += Bs[i][a] * WT[a] * t[a * 6 + b] * Bs[j][b] * WT[b]
            unit = 3 * k if i == 0 else 2 * mu
            out.append(q(s * nelem / unit * ST, 1.0))
    return out
