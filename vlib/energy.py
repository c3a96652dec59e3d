"""Recordings for spec/EnergyTrace.tla."""
from copy import copy
from .macro import *


def energy_model(c):
    for part, mats, k in (("bounds", "EMats", 0), ("work", "EMats", 2 if c.quick else 4), ("work", "ESoft", 3 if c.quick else 6)):
        r = model_check("EnergyMC", c.work, cfgtext(
            "ESpec", dict(Part='"%s"' % part, Mats=mats, P2=0, MaxSteps=k, Ks="EKs", Dirs2="EDirs",
                          Moves="EMoves" if c.quick else "EMore"), ["Bounds", "WorkCovers", "Stable"]), timeout=3000)
        c.add_model(r, "EnergyMC: %s %s" % (part, mats))


def qs(fc, v):
    return [q(x, fc.u0 * fc.Mu / 1000) for x in v]


def answers(c, exe, fc, es):
    """Stresses of a linear cell under several strains (one point each)."""
    n = fc.cell.nvoi
    S = Script()
    S.put(fc.cell.new(0))
    for g, e in enumerate(es):
        S.put(setline(0, g, fc.strain(e)))
    S.put("HOM 0")
    for g in range(len(es)):
        S.put("SIG 0 %d %d" % (g, n), g)
    S.put("DEL 0")
    o = S.run(c, exe)
    it = [dict(e=e, s=qs(fc, o[g].get("v", []))) for g, e in enumerate(es) if g in o]
    return it, ([dict(ev="crash", how=S.end)] if S.end else [])


def strain_family(rnd, dim, k=4, emax=6):
    """Strains, among them sums and opposites of others."""
    es = [rnd_strain(rnd, dim, emax) for _ in range(k)]
    es.append([a + b for a, b in zip(es[0], es[1])])
    es.append([-x for x in es[2]])
    es.append([0] * len(es[0]))
    j = rnd.randrange(len(es[0]))
    es.append([3 if i == j else 0 for i in range(len(es[0]))])
    return es


def linear_energy(c, exe, fcs, es):
    """fcs: list of (how, cell, r): 'first', 'stiffer' or 'finer' than the one before."""
    T = []
    for how, fc, r in fcs:
        it, bad = answers(c, exe, fc, es)
        if how != "first":
            T.append(dict(ev=how, c=fc.tla(), it=it, r=r))
            c.count("comparisons_" + how)
        else:
            T.append(dict(ev="cell", c=fc.tla()))
        T.append(dict(ev="linear", it=it))
        T += bad
        if bad:
            break
    return T


def stiffer_cell(rnd, fc):
    """A cell none of whose elements is softer: stiffer parameters, or a larger
    region of the stiffer material."""
    k = lambda m: 3 * m["lam"] + 2 * m["mu"] if fc.dim == 3 else m["lam"] + m["mu"]
    a, b = fc.mats
    m, w = [dict(a), dict(b)], fc.w
    if rnd.random() < 0.5 and k(a) != k(b) and (k(b) - k(a)) * (b["mu"] - a["mu"]) >= 0:
        w += 2 * rnd.randint(1, 6) * (1 if k(b) > k(a) else -1)
        w = max(1, w)
    else:
        i = rnd.randrange(2)
        m[i]["mu"] += rnd.choice([0, 1, 2, 9])
        m[i]["lam"] += rnd.choice([0, 1, 3, 9])
    return FemCell(rnd, fc.dim, fc.n, fc.h, fc.micro, w, fc.wden, m, u0=fc.u0, Mu=fc.Mu, lu=fc.lu)


CONTRAST = [(20, 30), (60, 40), (0, 150), (30, 8), (40, 120)]


def lin_mats(rnd):
    """Two materials, of very different stiffness now and then."""
    m = rnd_mats(rnd)
    if rnd.random() < 0.65:
        j = rnd.randrange(2)
        m[j]["lam"], m[j]["mu"] = rnd.choice(CONTRAST)
    return m


def stark(fcs):
    return any(m["mu"] >= 8 for _, f, _ in fcs for m in f.mats)


def lin_chain(rnd, dim, i):
    u0 = 1e-4 if rnd.random() < 0.7 else 10 ** rnd.uniform(-3.5, -1.5)
    Mu = 10 ** rnd.uniform(2.5, 4) / u0
    lu = rnd.choice([0.5, 1.0, 0.7])
    if i % 3 == 2:
        # layers that follow element boundaries, refined
        n, h = [rnd.randint(2, 3 if dim == 3 else 5) for _ in range(dim)], [2, 2, 2]
        if i % 4 == 0:      # a large one
            n = [4, 4, 4] if dim == 3 else [8, 7]
        h[rnd.randrange(3)] = 4
        w = 2 * rnd.randint(1, n[1] - 1) * h[1]
        mats = lin_mats(rnd)
        a = FemCell(rnd, dim, n, h, 1, w, 1, mats, u0=u0, Mu=Mu, lu=lu)
        b = FemCell(rnd, dim, [2 * x - 1 for x in n], [x // 2 for x in h], 1, w, 1, mats, u0=u0, Mu=Mu, lu=lu)
        return [("first", a, 0), ("finer", b, 2)]
    n, h = rnd_grid(rnd, dim, 4 if dim == 3 else 6, 3, 2)
    micro = rnd.randrange(2)
    w, wd = rnd_width(rnd, dim, n, h, micro)
    a = FemCell(rnd, dim, n, h, micro, w, wd, lin_mats(rnd), u0=u0, Mu=Mu, lu=lu)
    b = stiffer_cell(rnd, a)
    return [("first", a, 0), ("stiffer", b, 0), ("stiffer", stiffer_cell(rnd, b), 0)]


def plastic_energy(c, exe, fc, path, trials, seed):
    """A committed path; after every step several trials from the committed state."""
    n = 6
    rnd = random.Random("pe-%s" % seed)
    v, _ = lin_tangent(c, exe, fc.cell)
    C = sq(v, n, fc.Mu / 1000)
    T = [dict(ev="cell", c=fc.tla()),
         dict(ev="elastic", C=C, es=[[1 if i == j else 0 for i in range(6)] for j in range(6)] +
              [rnd_strain(rnd, 3, 6) for _ in range(4)]), dict(ev="virgin")]
    if not C:
        return T
    S = Script()
    S.put(fc.cell.new(0))
    for k, e in enumerate(path):
        for j, t in enumerate(trials[k] + [e]):
            S.put(setline(0, 1, fc.strain(t)))
            S.put("HOM 0")
            S.put("SIG 0 1 6", ("sig", k, j))
            S.put("TAN 0 1 6", ("tan", k, j))
            S.put("WRI 0")
            S.put("LAST micropp_convergence.dat", ("conv", k, j))
        S.put("UPD 0")
        S.put("SIG 0 1 6", ("done", k))
    S.put("DEL 0")
    o = S.run(c, exe)
    for k, e in enumerate(path):
        if ("done", k) not in o:
            break
        it = []
        for j, t in enumerate(trials[k] + [e]):
            if unconverged(o[("conv", k, j)].get("text", "")):
                c.count("trials_not_converged")
                continue
            tan = [num(x) for x in o[("tan", k, j)].get("v", [])]
            it.append(dict(e=t, s=qs(fc, o[("sig", k, j)].get("v", [])), T=[q(x, fc.Mu / 1000) for x in tan[::7]]))
            c.count("trials")
        T.append(dict(ev="trials", it=it, tt=60))
        if not it or it[-1]["e"] != e or unconverged(o[("conv", k, len(trials[k]))].get("text", "")):
            c.count("paths_cut_unconverged")
            break
        T.append(dict(ev="commit", e=e, s=it[-1]["s"]))
        c.count("committed_steps")
    if S.end:
        T.append(dict(ev="crash", how=S.end))
    return T


def energy_jobs(c, items, parts=7):
    groups = [items[i::parts] for i in range(parts)]

    def one(gr):
        def rec():
            T = []
            for f, _ in gr:
                T += f()
            return T
        T = rec()
        return ("EnergyTrace", None, T, dict(traces=len(gr), again=rec, note=json.dumps([d for _, d in gr])))
    with ThreadPoolExecutor(7) as ex:
        return list(ex.map(one, [g for g in groups if g]))
