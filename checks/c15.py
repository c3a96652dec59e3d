"""C15: a snapshot describes exactly the requested Gauss point."""
from vlib.fieldjobs import *
from vlib.hist import gen_sym, mat_pair, strains, exact_cell, jobs_for


def run(c):
    fem_model(c)
    exe = c.exe()
    behs, r = gen_sym(c, [1, 2], 4, 14, observers=True, unknown=[9], num=300 if c.quick else 3000, seed=c.seed)
    c.states += r.distinct
    c.transitions += r.generated
    useful = [b for b in behs if sum(a["op"] == "Out" for a in b) >= 2 and any(a["op"] == "Hom" for a in b)
              and any(a["op"] == "Upd" for a in b)]
    c.rnd.shuffle(useful)
    cells = []
    n = 28 if c.quick else 250
    for i in range(n):
        b = useful[i % len(useful)]
        ids = c.rnd.choice([[1, 2], [7, -3], [0, 100000]])
        b = [dict(a, g=ids[a["g"] - 1]) if a.get("g") in (1, 2) else a for a in b]

        if i % 4 == 3:
            dim = 2
            nn, h = rnd_grid(c.rnd, 2, 5, 3)
            w, wd = rnd_width(c.rnd, 2, nn, h, i // 4 % 2)
            fc = FemCell(c.rnd, 2, nn, h, i // 4 % 2, w, wd, rnd_mats(c.rnd, (i % 8 == 3, False), (5, 5), (1, 0)))
        else:
            dim = 3
            fc = pla_cell(c.rnd, 4, 2, minn=2)
        S = [rnd_strain(c.rnd, dim, 3 if k == 0 else 9) for k in range(4)]
        cells.append((fc, S, b, False))
    # larger grids
    for i, nn in enumerate([(15, 12), (7, 6, 5), (3, 2, 40), (11, 11)] if c.quick else [(15, 12), (7, 6, 5), (3, 2, 40), (11, 11), (6, 7, 8), (40, 9), (30, 3, 2)]):
        dim, h = len(nn), [1, 1, 1]
        w, wd = rnd_width(c.rnd, dim, nn, h, i % 2)
        fc = FemCell(c.rnd, dim, nn, h, i % 2, w, wd, rnd_mats(c.rnd, (False, False)))
        b = [dict(op="Set", g=1, e=1), dict(op="Set", g=2, e=2), dict(op="Hom"), dict(op="Out", g=2, ts=1), dict(op="Out", g=1, ts=1)]
        cells.append((fc, [rnd_strain(c.rnd, dim) for _ in range(2)], b, False))
    # much plastic strain, in matrix and inclusion
    path = [dict(op="Set", g=1, e=2), dict(op="Hom"), dict(op="Upd"), dict(op="Out", g=1, ts=1), dict(op="Set", g=1, e=3),
            dict(op="Set", g=2, e=2), dict(op="Hom"), dict(op="Upd"), dict(op="Out", g=1, ts=2), dict(op="Out", g=2, ts=2),
            dict(op="Set", g=1, e=4), dict(op="Out", g=1, ts=2), dict(op="Out", g=1, ts=1)]
    for i in range(7 if c.quick else 60):
        fc = pla_cell(c.rnd, 4, 2, minn=2, kinds=((True, True), (False, True)), R0=(2, 2))
        cells.append((fc, [rnd_strain(c.rnd, 3, 9) for k in range(4)], path, False))
    c.sample(cells[0][2])
    jobs = field_jobs(c, exe, cells, shots_history)
    # which file appears for which call, and that nothing else does
    m = mat_pair(c.rnd)
    cell = exact_cell(c.rnd, (2, 3, 2), m)
    jobs += jobs_for(c, exe, cell, strains(c.rnd, 4), [b for b in useful[:60 if c.quick else 600]], parts=1, tan=False)
    c.judge(jobs)
