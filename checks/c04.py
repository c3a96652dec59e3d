"""C04: the plastic response follows the J2 radial-return law."""
from vlib.j2jobs import *


def run(c):
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats2", Dir="MCDir", P2=0, Ids="{1}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=6 if c.quick else 8, Watch="FALSE"),
        ["TypeOK", "Law", "VirginUntilYield"]))
    c.add_model(r, "MicroMC two materials: law")
    exe = c.exe()
    confs = configs(c.rnd, 9 if c.quick else 45, iterative=2 if c.quick else 8)
    jobs = j2_jobs(c, exe, confs, {"sig", "var"}, ids=(1,), num=200 if c.quick else 1500, depth=16)
    jobs += j2_jobs(c, exe, soft_configs(c.rnd, 2 if c.quick else 12), {"sig", "var"}, ids=(1,), num=80 if c.quick else 600)
    few = dict(ids=(1,), num=60 if c.quick else 500)
    jobs += j2_jobs(c, exe, close_configs(c.rnd, 2 if c.quick else 12), {"sig", "var"}, **few, **CLOSE)
    jobs += j2_jobs(c, exe, softening_configs(c.rnd, 2 if c.quick else 12), {"sig", "var"}, **few, **SOFTEN)
    # long paths: hardening adds up
    jobs += j2_jobs(c, exe, configs(c.rnd, 3 if c.quick else 12), {"sig", "var"}, ids=(1,), num=8 if c.quick else 60, depth=300,
                    mx=20000, ks=(0, 1, 2, 3, -2, 5, -5, 8, -8))
    c.judge(jobs)
