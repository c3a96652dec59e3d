"""C21: committed plastic states are admissible and in equilibrium."""
from vlib.fieldjobs import *
from vlib.j2jobs import *


def path(c, exe, fc, p):
    return plastic_path(c, exe, fc, p, {"admiss", "equilp"})


def run(c):
    fem_model(c)
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats2", Dir="MCDir", P2=0, Ids="{1}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=5 if c.quick else 8, Watch="FALSE"),
        ["Law", "VirginUntilYield"]))
    c.add_model(r, "MicroMC: law")
    exe = c.exe()
    cells = [(mixed_cell(c.rnd, 0.8, R0=None if i % 2 else (2, 2)), rnd_path(c.rnd, 4)) for i in range(21 if c.quick else 210)]
    # large strains (the law has no scale)
    for i in range(6 if c.quick else 60):
        u0 = 10 ** c.rnd.uniform(-3.5, -1.5)
        cells.append((mixed_cell(c.rnd, R0=(2, 2), u0=u0, Mu=10 ** c.rnd.uniform(1.5, 2.5) / u0), rnd_path(c.rnd, 4)))
    # one long edge, in each direction
    for i in range(9 if c.quick else 60):
        n = [3, 3, 3]
        n[i % 3] = c.rnd.randint(5, 6)
        while True:
            fc = pla_cell(c.rnd, n=n, R0=(2, c.rnd.randint(2, 3)), kinds=((True, False), (True, True)), micro=1 if i % 9 > 5 else 0)
            if len({fc.elem_mat(e) for e in range(fc.cell.nelem)}) == 2:
                break
        cells.append((fc, rnd_path(c.rnd, 5)))
    # soft: forces not far above what the iteration accepts
    for i in range(7 if c.quick else 60):
        u0 = 10 ** c.rnd.uniform(-4.3, -3.7)
        cells.append((mixed_cell(c.rnd, R0=None if i % 2 else (2, 2), u0=u0, Mu=10 ** c.rnd.uniform(-1.5, 0.5) / u0), rnd_path(c.rnd, 4)))
    jobs = field_jobs(c, exe, cells, path)
    # where the answer is exact: admissible to the last digit
    few = dict(ids=(1,), num=60 if c.quick else 500)
    jobs += j2_jobs(c, exe, close_configs(c.rnd, 2 if c.quick else 12), {"sig", "var"}, **few, **CLOSE)
    jobs += j2_jobs(c, exe, softening_configs(c.rnd, 1 if c.quick else 12), {"sig", "var"}, **few, **SOFTEN)
    jobs += j2_jobs(c, exe, configs(c.rnd, 3 if c.quick else 12), {"sig", "var"}, **few)
    c.judge(jobs)
