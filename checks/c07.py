"""C07: the tangent is the derivative of the stress at the committed state."""
from vlib.j2jobs import *
from vlib.macro import *


def run(c):
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats2", Dir="MCDir", P2=0, Ids="{1}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=5 if c.quick else 7, Watch="FALSE"),
        ["TypeOK", "Law", "VirginUntilYield", "TangentElastic"]))
    c.add_model(r, "MicroMC: law")
    exe = c.exe()
    confs = configs(c.rnd, 6 if c.quick else 30, iterative=1 if c.quick else 4)
    jobs = j2_jobs(c, exe, confs, {"sig", "tan", "var"}, ids=(1,), num=80 if c.quick else 600)
    items = []
    for i in range(14 if c.quick else 150):
        dim = 2 if i % 2 == 0 else 3
        n, h = rnd_grid(c.rnd, dim, 4 if dim == 3 else 5, 2, 2)
        micro = i // 2 % 2
        w, wd = rnd_width(c.rnd, dim, n, h, micro)
        fc = FemCell(c.rnd, dim, n, h, micro, w, wd, rnd_mats(c.rnd), u0=1e-4, Mu=10 ** c.rnd.uniform(6.5, 7.5),
                     lu=c.rnd.choice([0.5, 1.0, 0.7]))
        items.append(lambda fc=fc, i=i: fd_linear(c, exe, fc.cell, 1e-6, "%d-%d" % (c.seed, i)))
    for i in range(21 if c.quick else 150):
        fc = mixed_cell(c.rnd, 0.6, minn=2)
        fc = FemCell(c.rnd, 3, fc.n, fc.h, fc.micro, fc.w, fc.wden, fc.mats, u0=1e-4, Mu=10 ** c.rnd.uniform(6.5, 7.2), lu=1.0)
        path = rnd_path(c.rnd, c.rnd.choice([1, 2, 3]))
        items.append(lambda fc=fc, i=i, path=path: fd_plastic(c, exe, fc, path, i))
    jobs += macro_jobs(c, items)
    c.judge(jobs)
