"""C20: relabelling or mirroring the axes only relabels the results."""
from vlib.symm import *


def istrains(rnd, n, k):
    out = []
    for i in range(k):
        while True:
            e = [rnd.randint(-2400, 2400) for _ in range(n)]
            if max(map(abs, e)) > 1500:
                break
        out.append(e if i else [x // 10 for x in e])
    return out


def run(c):
    r = model_check("SymmMC", c.work, cfgtext("MSpec", dict(Vals="{7}" if c.quick else "{7, 11}"),
                                              ["Action", "Unit", "Invertible", "Groups", "Commutes", "Tangent"]))
    c.add_model(r, "SymmMC")
    exe = c.exe()
    rnd = c.rnd
    one, r = gen_sym(c, [1], 3, 8, num=60, seed=c.seed)
    c.add_model(r, "GenSym one point (simulation)")
    two, r = gen_sym(c, [1, 2], 3, 14, num=30, seed=c.seed)
    c.add_model(r, "GenSym two points (simulation)")
    c.sample(one[0])
    m = mat_pair(rnd)
    lin = Mat(m.E * 2, 0.3)
    pl = Mat(m.E * 1.5, 0.3, m.Sy * 1.5, m.Ka, 1)
    runs = []

    def cell(dim, size, micro, m1, m2):
        L = rnd.sample([0.8, 1.0, 1.25, 1.6, 2.0], dim)
        return Cell(dim, size, micro, L, clear_width(rnd, dim, size, L, micro), m1, m2)

    def some(dim, micro, k):
        fr = frames(dim, micro)
        return fr[:1] + (rnd.sample(fr[1:], min(k, len(fr) - 1)))
    big = not c.quick
    for i in range(1 if c.quick else 4):
        # no interior nodes: every relabelling
        runs.append((cell(3, rnd.choice([(2, 3, 4), (4, 3, 2), (3, 4, 2)]), 0, m, pl), rnd.sample(one, 4) + rnd.sample(two, 2), 47))
        runs.append((cell(3, (3, 4, 2), 1, m, pl), rnd.sample(one, 5) + rnd.sample(two, 2), 9))
        # interior nodes
        runs.append((cell(3, (3, 4, 5), 0, m, lin), rnd.sample(one, 2), 10 + 37 * big))
        runs.append((cell(3, (5, 3, 4), 0, Mat(m.E, 0.3), lin), rnd.sample(one, 2), 10 + 37 * big))
        runs.append((cell(3, (4, 4, 3), 1, m, lin), rnd.sample(one, 2), 9))
        runs.append((cell(3, (3, 3, 4), 0, lin, m), rnd.sample(one, 2), 10 + 37 * big))
        runs.append((cell(3, (3, 5, 4), 1, Mat(m.E, 0.2), lin), rnd.sample(one, 3), 9))
        runs.append((cell(2, (4, 6), 0, Mat(m.E, 0.25), lin), rnd.sample(one, 8), 9))
        runs.append((cell(2, (5, 4), 0, lin, Mat(m.E, 0.0)), rnd.sample(two, 8), 9))
        runs.append((cell(2, (4, 6), 1, Mat(m.E, 0.25), lin), rnd.sample(one, 8), 9))

    # large strains too
    from vlib.scale import in_units
    runs = [(x[0], x[1], x[2], 1e-6) if i % 3 else (in_units(x[0], 1.0, 1.0, 30.0), x[1], x[2], 3e-5) for i, x in enumerate(runs)]

    def go(x):
        cl, behs, k, unit = x
        S = istrains(random.Random(cl.describe().__repr__()), cl.nvoi, 3)
        fr = some(cl.dim, cl.micro, k)

        def rec():
            return symm_run(c, exe, cl, S, behs, fr, unit)
        return ("SymmTrace", None, rec(), dict(traces=len(behs) * len(fr), again=rec,
                                               note=json.dumps(dict(cell=cl.describe(), strains=S))))
    with ThreadPoolExecutor(7) as ex:
        jobs = list(ex.map(go, runs))
    for j in jobs:
        c.count("relabelled_runs", sum(1 for e in j[2] if e["ev"] == "new"))
        c.count("plastic_answers", sum(1 for e in j[2] if e["ev"] == "nlf" and e["v"] == [1]))
    c.judge(jobs)
