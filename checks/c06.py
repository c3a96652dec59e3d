"""C06: the linear shortcut is taken exactly below the given threshold."""
from vlib.j2jobs import *
from vlib.macro import *


def run(c):
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats2", Dir="MCDir", P2=1, Ids="{1, 2}", Ks="MCKs", Ps="MCPs",
                      MaxCalls=4 if c.quick else 5, Watch="FALSE"),
        ["TypeOK", "FlagExact", "VirginUntilYield", "ShortcutElastic"], ["FlagLatches"]))
    c.add_model(r, "MicroMC: threshold")
    exe = c.exe()
    confs = configs(c.rnd, 6 if c.quick else 30, p2=(1, 5, 7, 9))
    jobs = j2_jobs(c, exe, confs, {"sig", "nlf", "tan"}, ps=(0, 3, -4, 1, -2), num=100 if c.quick else 800)
    # no threshold: a vanishing invariant is no reason for the shortcut
    shear = []
    for i in range(3 if c.quick else 12):
        R0 = c.rnd.choice([5, 15])
        jc = J2Cell(c.rnd, c.rnd.choice([(2, 2, 2), (3, 2, 2), (2, 3, 2)]),
                    [dict(mu=1, k=1, R0=R0, H=c.rnd.choice([0, 2]), plastic=True)], nu=0.0 if i % 3 else 0.25,
                    lengths=[1.0, 1.0, 1.0] if i % 2 else None)
        shear.append((jc, [[0, 0, 10, 0, 0], [0, 0, 0, -10, 0], [0, 0, 0, 6, 8], [0, 0, 0, 0, 10]], "pure_shear", False))
    # a very small one: any shear passes below it
    for i in range(3 if c.quick else 12):
        jc = J2Cell(c.rnd, c.rnd.choice([(2, 2, 2), (3, 2, 2), (2, 3, 2)]),
                    [dict(mu=1, k=1, R0=c.rnd.choice([5, 15]), H=c.rnd.choice([0, 2]), plastic=True)], p2=1)
        shear.append((jc, [[0, 0, 10, 0, 0], [0, 0, 0, -10, 0], [0, 0, 0, 6, 8], [0, 0, 0, 0, 10]], "pure_shear", False))
    jobs += j2_jobs(c, exe, shear, {"sig", "nlf", "tan"}, ps=(0, 1), num=60 if c.quick else 400)
    items = []
    for i in range(28 if c.quick else 250):
        dim = 2 if i % 3 == 0 else 3
        n, h = rnd_grid(c.rnd, dim, 4 if dim == 3 else 5, 2, 3)
        micro = i // 2 % 2
        w, wd = rnd_width(c.rnd, dim, n, h, micro)
        kind = [(False, False), (True, False), (True, True)][i % 3 if dim == 3 else 0]
        m = rnd_mats(c.rnd, kind, (9, 9), (1, 0))
        fc = FemCell(c.rnd, dim, n, h, micro, w, wd, m, u0=1e-4, Mu=c.rnd.choice([1e6, 1e6, 1e6, 1e9, 1e12]))
        if kind != (False, False):
            # yields at part of the strains used
            for mm in (fc.cell.m1, fc.cell.m2):
                mm.Sy = 0.8e-3 * 2 * mm.mu
        # both materials occur?
        if len({fc.elem_mat(e) for e in range(fc.cell.nelem)}) < 2:
            fc.cell.m2 = fc.cell.m1
        items.append(lambda fc=fc, i=i: thr_cell(c, exe, fc.cell, 1e-6, 2, "%d-%d" % (c.seed, i)))
    jobs += macro_jobs(c, items)
    c.judge(jobs)
