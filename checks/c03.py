"""C03: queries and outputs never change later results."""
from vlib.impl import impl_model
from vlib.hist import *
from vlib.j2jobs import configs, j2_jobs


def strip(b):
    return [a for a in b if a["op"] in ("Set", "Hom", "Upd")]


def run(c):
    impl_model(c, ["output-saves", "flag-sticky"])
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats1", Dir="MCDir", P2=0, Ids="{1, 2}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=5 if c.quick else 6, Watch="TRUE"),
        ["TypeOK", "Independence"], ["CommitOnlyByUpdate"]))
    c.add_model(r, "MicroMC with observers")
    exe = c.exe()
    jobs = []
    ex, r = gen_sym(c, [1], 2, 5, observers=True, unknown=[9])
    c.add_model(r, "GenSym observers, exhaustive")
    ex = [b for b in ex if any(a["op"] in ("Out", "Wri", "Qry") for a in b)]
    ex = c.rnd.sample(ex, min(len(ex), 700 if c.quick else 8000))
    lng, r = gen_sym(c, [1, 2], 6, 26, observers=True, unknown=[9], num=120 if c.quick else 1000, seed=c.seed)
    c.rnd.shuffle(lng)
    lng = lng[:120 if c.quick else 1000]
    c.sample(lng[0])
    m = mat_pair(c.rnd)
    S = strains(c.rnd, 6)

    def both(behs):
        out = []
        for b in behs:
            out += [b, strip(b)]
        return [b for b in out if b]
    for size in ([(2, 3, 2)] if c.quick else [(2, 3, 2), (3, 2, 3), (2, 2, 2)]):
        cell = exact_cell(c.rnd, size, m)
        jobs += jobs_for(c, exe, cell, S, both(ex), obs="final", parts=2)
        jobs += jobs_for(c, exe, cell, S, both(lng), obs="final", parts=1)
    for size, micro in ([((3, 3, 3), 1)] if c.quick else [((3, 3, 3), 1), ((4, 3, 3), 1), ((3, 3, 3), 0)]):
        cell = iter_cell(c.rnd, size, m, micro)
        jobs += jobs_for(c, exe, cell, S, both(lng[:40 if c.quick else 300]), obs="final", parts=1)
        jobs += jobs_for(c, exe, cell, S, both(c.rnd.sample(ex, 60)), obs="final", parts=1)
        jobs += jobs_for(c, exe, cell, S, both(lng[40:80] if c.quick else lng[300:600]), obs="final", parts=1, exactly=True)
    # loads for which the iteration may fail: still the same with and without
    few = [b[:10] for b in lng if any(a["op"] == "Out" for a in b[:10]) and any(a["op"] == "Hom" for a in b[:10])]
    for k in range(7 if c.quick else 50):
        cell = hard_cell(c.rnd, (3, 4, 3) if k % 3 else (3, 3, 4), mat_pair(c.rnd), 0 if k == 5 else 1)
        jobs += jobs_for(c, exe, cell, far(c.rnd, 6), both(c.rnd.sample(few, min(16, len(few)))), obs="final", parts=1, exactly=k % 2 == 0)
    cell = Cell(2, (4, 3), 0, (1.0, 1.5), 0.4, Mat(m.E, 0.3, 1.0, 1.0, 1), Mat(m.E * 2, 0.2))
    jobs += jobs_for(c, exe, cell, strains(c.rnd, 6, 2), both(lng[:40]), obs="final", parts=1)
    # with a threshold, against the exact law
    jobs += j2_jobs(c, exe, configs(c.rnd, 4 if c.quick else 20, p2=(1, 5, 7, 9)), {"sig", "tan", "nlf", "var"},
                    ids=(1, 2), ps=(0, 3, -4, 1, -2), depth=20, num=80 if c.quick else 800, obs=True)
    c.judge(jobs)
