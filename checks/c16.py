"""C16: information files grow by one faithful record per write."""
from vlib.files import *
from vlib.j2jobs import configs, j2_jobs


def istrains(rnd, n, k, top):
    out = []
    for i in range(k):
        while True:
            e = [rnd.randint(-top, top) for _ in range(n)]
            if max(map(abs, e)) > top // 2:
                break
        out.append(e if i else [x // 10 for x in e])
    # one without normal components
    out[-1] = [0] * (n // 2 if n == 6 else 2) + out[-1][n // 2 if n == 6 else 2:]
    out[-1][-1] = top
    return out


def run(c):
    r = model_check("MicroMC", c.work, cfgtext(
        "MSpec", dict(Mats="MCMats1", Dir="MCDir", P2=0, Ids="{1, 2}", Ks="MCKs", Ps="MCPs0",
                      MaxCalls=4 if c.quick else 6, Watch="TRUE"), ["TypeOK", "RowsFaithful"], ["RowsAppendOnly"]))
    c.add_model(r, "MicroMC with writes")
    exe = c.exe()
    ex, r = gen_sym(c, [1, 2], 2, 5, observers=True)
    c.add_model(r, "GenSym observers, exhaustive")
    ex = [b for b in ex if any(a["op"] == "Wri" for a in b)]
    ex = c.rnd.sample(ex, min(len(ex), 500 if c.quick else 5000))
    lng, r = gen_sym(c, [1, 2, 3], 4, 30, observers=True, unknown=[9], num=80 if c.quick else 800, seed=c.seed)
    c.rnd.shuffle(lng)
    c.sample(lng[0])
    m = mat_pair(c.rnd)
    ids = c.rnd.sample([0, -3, 12, 7, 100, -1], 3)
    ren = lambda b: [dict(a, g=ids[a["g"] - 1]) if a.get("g", 0) in (1, 2, 3) else a for a in b]
    ex, lng = [ren(b) for b in ex], [ren(b) for b in lng]
    # many points, introduced at different times
    wide = []
    for k in range(3 if c.quick else 12):
        b, n = [], 0
        for step in range(7):
            for _ in range(c.rnd.randrange(1, 5)):
                n += 1
                b.append(dict(op="Set", g=n * 3 - 8, e=c.rnd.randrange(1, 5)))
            for g in range(1, n + 1):
                if c.rnd.random() < 0.3:
                    b.append(dict(op="Set", g=g * 3 - 8, e=c.rnd.randrange(1, 5)))
            b.append(dict(op="Hom"))
            b += [dict(op="Wri")] * c.rnd.randrange(1, 3)
            if c.rnd.random() < 0.7:
                b += [dict(op="Upd"), dict(op="Wri")]
        wide.append(b)
    # a long one
    b = []
    for k in range(150 if c.quick else 1000):
        if k < 5 or c.rnd.random() < 0.5:
            b.append(dict(op="Set", g=ids[c.rnd.randrange(3)], e=c.rnd.randrange(1, 5)))
        b += [dict(op="Hom")] * c.rnd.randrange(2) + [dict(op="Upd")] * c.rnd.randrange(2) + [dict(op="Wri")]
    runs = []
    runs.append((exact_cell(c.rnd, (2, 2, 2), m), istrains(c.rnd, 6, 4, 2000), [b]))
    e3 = exact_cell(c.rnd, (2, 3, 2), m)
    s3 = istrains(c.rnd, 6, 4, 2000)
    k = 4
    for i in range(k):
        runs.append((e3, s3, ex[i::k] + lng[i::k] + wide[i::k]))
    i3 = iter_cell(c.rnd, (3, 3, 3), m, 1)
    runs.append((i3, s3, lng[:20 if c.quick else 200]))
    c2 = Cell(2, (4, 3), 0, (1.0, 1.5), 0.4, Mat(m.E, 0.3, 1.0, 1.0, 1), Mat(m.E * 2, 0.2))
    runs.append((c2, istrains(c.rnd, 3, 4, 2000), lng[:40 if c.quick else 300] + ex[:150]))
    # with a threshold, so that shortcut records occur as well
    t3 = exact_cell(c.rnd, (2, 3, 3), m)
    t3.tol = m.E * 1e-3
    runs.append((t3, s3, lng[:40 if c.quick else 300] + wide[:1]))

    runs = [(x, 1e-6) for x in runs]
    # strains and plastic strains that are very small
    w = c.rnd.choice([3e-9, 2e-8, 1e-7])
    tiny = exact_cell(c.rnd, (2, 3, 2), Mat(m.E, m.nu, m.Sy * w / 1e-6, m.Ka, 1))
    runs.append(((tiny, istrains(c.rnd, 6, 4, 2000), lng[:20 if c.quick else 200] + wide[:1]), w))

    def one(x):
        (cell, S, behs), u = x

        def rec():
            return files_run(c, exe, cell, S, behs, u)[0]
        return ("FilesTrace", None, rec(), dict(traces=len(behs), again=rec, note=json.dumps(cell.describe())))
    with ThreadPoolExecutor(7) as ex_:
        jobs = list(ex_.map(one, runs))
    for j in jobs:
        c.count("records_read", sum(1 for e in j[2] if e["ev"] == "wri"))
    # what the records say about the variables is what the law says, in all units
    jobs += j2_jobs(c, exe, configs(c.rnd, 2 if c.quick else 8, tiny=True) + configs(c.rnd, 1 if c.quick else 8), {"var"},
                    num=40 if c.quick else 300)
    c.judge(jobs)
