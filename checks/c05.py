"""C05: the non-linear flag is raised exactly when something yields."""
from vlib.j2jobs import *
from vlib.fieldjobs import *


def run(c):
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats2", Dir="MCDir", P2=1, Ids="{1}", Ks="MCKs", Ps="MCPs",
                      MaxCalls=5 if c.quick else 7, Watch="FALSE"),
        ["TypeOK", "FlagExact", "VirginUntilYield"], ["FlagLatches"]))
    c.add_model(r, "MicroMC: flag")
    exe = c.exe()
    # the exact law, loads at both sides of the surface, also very close to it
    confs = configs(c.rnd, 4 if c.quick else 20)
    jobs = j2_jobs(c, exe, confs, {"nlf"}, num=100 if c.quick else 800)
    # with a threshold: small strains before and after yielding
    jobs += j2_jobs(c, exe, configs(c.rnd, 4 if c.quick else 20, p2=(1, 5, 7, 9)), {"nlf"}, ps=(0, 3, -4, 1, -2),
                    num=100 if c.quick else 800)
    close = []
    for i in range(4 if c.quick else 12):
        R0 = c.rnd.choice([995, 985, 1005])
        mats = [dict(mu=1, k=1, R0=R0, H=c.rnd.choice([0, 2]), plastic=True)]
        n2 = 0
        if i % 2:
            mats.append(dict(mu=2, k=1, R0=5, H=0, plastic=False))
            n2 = 1
        jc = J2Cell(c.rnd, c.rnd.choice([(2, 3, 2), (3, 3, 2)]), mats, u0=10 ** (c.rnd.uniform(-6.5, -5.5) if i < 2 else c.rnd.uniform(-9.6, -8.6)), n2=n2)
        close.append((jc, directions(c.rnd, 4), "close", False))
    jobs += j2_jobs(c, exe, close, {"nlf"}, ks=(0, 50, 98, 99, 100, 101, -99, -100, -101), num=80 if c.quick else 600,
                    depth=12, mx=3000)
    few = dict(num=60 if c.quick else 500)
    jobs += j2_jobs(c, exe, close_configs(c.rnd, 3 if c.quick else 12), {"nlf"}, **few, **CLOSE)
    jobs += j2_jobs(c, exe, softening_configs(c.rnd, 1 if c.quick else 8), {"nlf"}, **few, **SOFTEN)
    # cells whose points differ: limits placed between the values at the points
    cells = []
    for i in range(28 if c.quick else 200):
        kind = [(True, False), (False, True), (True, True), (True, True)][i % 4]
        if i % 7 == 6:
            kind = (False, False)
        dim = 2 if i % 7 == 5 else 3
        n, h = rnd_grid(c.rnd, dim, 4, 2, 3)
        micro = 1 if i % 3 else 0
        w, wd = rnd_width(c.rnd, dim, n, h, micro)
        fc = FemCell(c.rnd, dim, n, h, micro, w, wd, rnd_mats(c.rnd, kind, (9, 9), (0, 1)), u0=1e-4, Mu=1e6)
        fc.M = 500
        cells.append((fc, [rnd_strain(c.rnd, dim) for _ in range(2)]))
    jobs += field_jobs(c, exe, cells, flag_cell)
    # the only element that yields: any, also those at the corners
    cells = []
    for i in range(14 if c.quick else 100):
        n, h = rnd_grid(c.rnd, 3, 4, 2, 3)
        if i % 2:
            n[c.rnd.randrange(3)] = c.rnd.randint(4, 5)
        w, wd = rnd_width(c.rnd, 3, n, h, i % 2)
        fc = FemCell(c.rnd, 3, n, h, i % 2, w, wd, rnd_mats(c.rnd, (True, i % 3 > 0), (9, 9), (0, 1)), u0=1e-4, Mu=1e6)
        fc.M = 500
        cells.append((fc, "aim-%d-%d" % (c.seed, i)))
    jobs += field_jobs(c, exe, cells, flag_aimed)
    # stiff or soft plastic inclusions: the iteration starts far above or below
    # the limit and ends on the other side
    cells = []
    for i in range(7 if c.quick else 40):
        n, h = [c.rnd.choice([4, 4, 4, 6]) if i > 2 else 4 for _ in range(3)], c.rnd.choice([[1, 1, 1], [1, 2, 1], [2, 1, 1]])
        if sum(n) > 14:
            n = [4, 4, 4]
        a, b = (9, 1) if i % 7 < 5 else (1, 9)
        mats = [dict(lam=1, mu=b, linear=True, R0=9, H=0), dict(lam=c.rnd.choice([0, 1, 4]), mu=a, linear=False, R0=9, H=i % 2)]
        fc = FemCell(c.rnd, 3, n, h, 0, 1, 2, mats, u0=1e-4, Mu=1e6)
        fc.M = 500
        cells.append((fc, [rnd_strain(c.rnd, 3) for _ in range(2)]))
    jobs += field_jobs(c, exe, cells, flag_cell)
    c.judge(jobs)
