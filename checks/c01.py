"""C01: only update commits history, and it commits the latest homogenization."""
from vlib.impl import impl_model
from vlib.hist import *
from vlib.j2jobs import configs, j2_jobs


def run(c):
    impl_model(c, ["tangent-saves", "save-if-yields"])
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats1", Dir="MCDir", P2=0, Ids="{1}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=6 if c.quick else 8, Watch="FALSE"),
        ["TypeOK", "Idempotent", "VirginUntilYield"], ["CommitOnlyByUpdate"]))
    c.add_model(r, "MicroMC one point")
    exe = c.exe()
    jobs = []
    depth = 6 if c.quick else 8
    ex, r = gen_sym(c, [1], 3, depth)
    c.add_model(r, "GenSym exhaustive depth %d" % depth)
    lng, r = gen_sym(c, [1], 6, 30, num=120 if c.quick else 1500, seed=c.seed)
    c.rnd.shuffle(lng)
    lng = lng[:120 if c.quick else 1500]
    c.sample(lng[0])
    c.sample(ex[len(ex) // 2])
    m = mat_pair(c.rnd)
    S = strains(c.rnd, 6)
    for size in ([(2, 2, 2), (2, 3, 3)] if c.quick else [(2, 2, 2), (2, 3, 3), (3, 2, 4), (4, 3, 2)]):
        # the lowest elements never yield, or may; in the first case strains without
        # a first component
        lin = size[1] == 2 if c.quick else c.rnd.random() < 0.5
        cell = exact_cell(c.rnd, size if not lin or size[1] > 2 else (size[0], 3, 2), m, lin)
        if lin:
            S = [[0.0] + [x * max(map(abs, s)) / (max(map(abs, s[1:])) or 1.0) for x in s[1:]] for s in S]
            if not any(S[3]):
                S[3] = [0.0, 0.0, 0.0, 2e-3, 0.0, 0.0]
        else:      # here the third one is none at all
            S = strains(c.rnd, 6)
            S[2], S[5] = S[5], S[2]
        jobs += jobs_for(c, exe, cell, S, ex, chunk=4000)
        jobs += jobs_for(c, exe, cell, S, lng, chunk=4000)
    sub = c.rnd.sample(ex, min(len(ex), 60 if c.quick else 700))
    for size, micro in ([((3, 3, 3), 1)] if c.quick else [((3, 3, 3), 1), ((3, 4, 3), 1), ((3, 3, 3), 0)]):
        cell = iter_cell(c.rnd, size, m, micro)
        jobs += jobs_for(c, exe, cell, S, sub, chunk=30)
        two = [b for b in sub if sum(a["op"] == "Hom" for a in b) >= 2][:14 if c.quick else 140]
        # homogenizing again after a commit, at the strain just committed
        for e in (2, 4, 5, 6):
            two.append([dict(op=o, g=1, e=e) for o in ("Set", "Hom", "Upd", "Hom", "Upd", "Hom")])
            two.append([dict(op=o, g=1, e=e) for o in ("Set", "Hom", "Hom", "Upd", "Set", "Hom")])
        for exactly in (False, True):
            jobs += jobs_for(c, exe, cell, S, [x for b in two for x in (b, detoured(b, 6))], parts=1, exactly=exactly)
        jobs += jobs_for(c, exe, cell, S, lng[:10 if c.quick else 100], chunk=10)
    cell = exact_cell(c.rnd, (2, 2, 2), m)
    vlong, r = gen_sym(c, [1], 6, 250, num=3 if c.quick else 20, seed=c.seed + 7)
    jobs += jobs_for(c, exe, cell, S, vlong[:3 if c.quick else 20], parts=1)
    # what was tried and given up before the commit makes no difference
    tried = []
    for a in (0, 1, 2, 3):
        for x in (1, 2, 3):
            for t in (0, 1, 2, 3):
                b = []
                for e, commit in ((a, True), (t, False), (x, True)):
                    if e:
                        b += [dict(op="Set", g=1, e=e), dict(op="Hom")] + [dict(op="Upd")] * commit
                tried.append(b + [dict(op="Hom")])
    # trials far away, for which the iteration may fail
    for k in range(5 if c.quick else 40):
        cell = hard_cell(c.rnd, (3, 4, 3) if k % 3 else (3, 3, 4), mat_pair(c.rnd), 0 if k == 4 else 1)
        jobs += jobs_for(c, exe, cell, far(c.rnd, 3), c.rnd.sample(ex, 30) + tried, parts=1, exactly=k % 2 == 0)
    # moduli so high that rounding keeps the residual above the tolerance
    for k in range(1 if c.quick else 8):
        z = 10.0 ** c.rnd.randint(10, 12)
        mm = mat_pair(c.rnd)
        cell = hard_cell(c.rnd, (3, 3, 3), Mat(mm.E * z, mm.nu, mm.Sy * z, mm.Ka * z, 1))
        jobs += jobs_for(c, exe, cell, strains(c.rnd, 3), c.rnd.sample(ex, 20), parts=1)
    # with a threshold, against the exact law
    jobs += j2_jobs(c, exe, configs(c.rnd, 3 if c.quick else 15, p2=(1, 5, 7, 9)), {"sig", "nlf", "var"}, ids=(1,),
                    ps=(0, 3, -4, 1, -2), depth=18, num=80 if c.quick else 800)
    c.judge(jobs)
