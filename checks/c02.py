"""C02: Gauss points are independent of each other."""
from vlib.impl import impl_model
from vlib.hist import *
from vlib.j2jobs import configs, j2_jobs


def ids_for(rnd, n):
    pool = [0, -1, -7, 5, 3, 2147483647, -2147483648 + 1, 100000, 17, 42, -1000, 8, 261, 65541, 7, -5, 256, 1000]
    return rnd.sample(pool, n)


def colliding(rnd):
    """Equal in the lower bits, or up to the sign."""
    k = rnd.choice([5, 7, 1])
    return rnd.choice([[k, 65536 + k, 256 + k, -k], [k - 256, k, k - 65536, 2 ** 24 + k], [k + 2 ** 30, -k, k, k + 2 ** 16],
                       [k, k + 1024, k + 128, k + 2 ** 20]])


def rename(b, ids):
    return [dict(a, g=ids[a["g"] - 1]) if a.get("g", 0) > 0 else a for a in b]


def alone(b, g):
    """The calls that concern point g, from its introduction on."""
    out = []
    for a in b:
        if a["op"] == "Set":
            if a["g"] == g:
                out.append(a)
        elif out:
            out.append(a)
    return out


def with_projections(behs):
    out, have = [], set()
    for b in behs:
        out.append(b)
        for g in sorted({a["g"] for a in b if a["op"] == "Set"}):
            p = alone(b, g)
            k = json.dumps(p)
            if k not in have:
                have.add(k)
                out.append(p)
    return out


def run(c):
    impl_model(c, ["load-virgin-skipped", "update-scratch"])
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats1", Dir="MCDir", P2=0, Ids="{1, 2}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=5 if c.quick else 6, Watch="FALSE"),
        ["TypeOK", "Independence", "OrderOnce"]))
    c.add_model(r, "MicroMC two points")
    exe = c.exe()
    jobs = []
    ex, r = gen_sym(c, [1, 2], 2, 6 if c.quick else 7)
    c.add_model(r, "GenSym two points, exhaustive")
    ex = c.rnd.sample(ex, min(len(ex), 900 if c.quick else 6000))
    lng, r = gen_sym(c, [1, 2, 3, 4], 6, 30, num=60 if c.quick else 800, seed=c.seed)
    c.rnd.shuffle(lng)
    lng = lng[:60 if c.quick else 800]
    # many points, introduced at different times
    wide = []
    for k in range(4 if c.quick else 12):
        b, n = [], 0
        for step in range(8):
            for _ in range(c.rnd.randrange(5) if k % 2 else c.rnd.randrange(3, 9)):
                n += 1
                b.append(dict(op="Set", g=n, e=c.rnd.randrange(1, 7)))
            for g in range(1, n + 1):
                if c.rnd.random() < 0.3:
                    b.append(dict(op="Set", g=g, e=c.rnd.randrange(1, 7)))
            b.append(dict(op="Hom"))
            if c.rnd.random() < 0.7:
                b.append(dict(op="Upd"))
        wide.append(b)
    # very many, few calls
    crowd = []
    for k in range(1 if c.quick else 4):
        n = 320 if c.quick else c.rnd.choice([320, 700, 1100])
        b = [dict(op="Set", g=3 * g - n, e=c.rnd.randrange(1, 7)) for g in range(1, n + 1)]
        b.append(dict(op="Hom"))
        b.append(dict(op="Upd"))
        b += [dict(op="Set", g=3 * g - n, e=c.rnd.randrange(1, 7)) for g in range(1, n + 1) if c.rnd.random() < 0.5]
        b.append(dict(op="Hom"))
        crowd.append(b)
    c.sample(lng[0])
    c.sample(wide[0][:30])
    m = mat_pair(c.rnd)
    S = strains(c.rnd, 6)
    i2, i4 = ids_for(c.rnd, 2), ids_for(c.rnd, 4)
    ex0 = ex
    ex = with_projections([rename(b, i2) for b in ex])
    k = c.rnd.choice([1, 5, 7, 300])
    sets = [i4, colliding(c.rnd), colliding(c.rnd), ids_for(c.rnd, 4), c.rnd.sample([k, -k, k + 1, -k - 1], 4)]
    lng = with_projections([rename(b, sets[k % 5]) for k, b in enumerate(lng)])
    wide = with_projections(wide)
    c.count("projections_compared", len(ex) + len(lng) + len(wide))
    for size in ([(2, 3, 2)] if c.quick else [(2, 3, 2), (3, 2, 3), (2, 2, 2)]):
        cell = exact_cell(c.rnd, size, m)
        jobs += jobs_for(c, exe, cell, S, ex, parts=2, var=False)
        jobs += jobs_for(c, exe, cell, S, lng, parts=1)
        jobs += jobs_for(c, exe, cell, S, wide, parts=2)
    cell = exact_cell(c.rnd, (2, 2, 2), m)
    jobs += jobs_for(c, exe, cell, S, with_projections(crowd), obs="final", parts=1)
    for size, micro in ([((3, 3, 3), 1)] if c.quick else [((3, 3, 3), 1), ((4, 3, 3), 1), ((3, 3, 3), 0)]):
        cell = iter_cell(c.rnd, size, m, micro)
        k = 40 if c.quick else 400
        jobs += jobs_for(c, exe, cell, S, with_projections([rename(b, i2) for b in lng[:0]] + ex[:k]), parts=1)
        jobs += jobs_for(c, exe, cell, S, lng[:12 if c.quick else 120], parts=1)
        jobs += jobs_for(c, exe, cell, S, lng[:24 if c.quick else 120], parts=1, exactly=True)
        jobs += jobs_for(c, exe, cell, S, wide[:20 if c.quick else 60], parts=1)
    # loads for which the iteration may fail
    few = [rename(b, i2) for b in c.rnd.sample(ex0, 40)]
    for k in range(7 if c.quick else 50):
        cell = hard_cell(c.rnd, (3, 4, 3) if k % 3 else (3, 3, 4), mat_pair(c.rnd), 0 if k == 5 else 1)
        jobs += jobs_for(c, exe, cell, far(c.rnd, 2), with_projections(c.rnd.sample(few, 14)), parts=1, exactly=k % 2 == 0)
    # 2D cells: linear, but points and history records exist as well
    cell = Cell(2, (4, 3), 0, (1.0, 1.5), 0.4, Mat(m.E, 0.3, 1.0, 1.0, 1), Mat(m.E * 2, 0.2))
    S2 = strains(c.rnd, 6, 2)
    jobs += jobs_for(c, exe, cell, S2, lng[:40], parts=1)
    # with a threshold, against the exact law
    jobs += j2_jobs(c, exe, configs(c.rnd, 3 if c.quick else 15, p2=(1, 5, 7, 9)), {"sig", "tan", "nlf", "var"},
                    ids=(1, 2, 3), ps=(0, 3, -4, 1, -2), depth=18, num=60 if c.quick else 600)
    c.judge(jobs)
